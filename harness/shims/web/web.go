// Package web stands in for github.com/gocraft/web, which is not available offline. It implements the part of its
// API a small JSON service uses: routers, subrouters, middleware, handlers, not-found and error handlers.
package web

import (
	"bufio"
	"fmt"
	"net"
	"net/http"
	"reflect"
	"strings"
)

type ResponseWriter interface {
	http.ResponseWriter
	http.Flusher
	http.Hijacker
	http.CloseNotifier

	StatusCode() int
	Written() bool
	Size() int
}

type Request struct {
	*http.Request
	PathParams map[string]string

	routePath string
	routed    bool
}

func (r *Request) IsRouted() bool    { return r.routed }
func (r *Request) RoutePath() string { return r.routePath }

type NextMiddlewareFunc func(ResponseWriter, *Request)
type GenericMiddleware func(ResponseWriter, *Request, NextMiddlewareFunc)
type GenericHandler func(ResponseWriter, *Request)

type rw struct {
	http.ResponseWriter
	status int
	size   int
}

func (w *rw) Write(b []byte) (int, error) {
	if w.status == 0 {
		w.status = http.StatusOK
	}
	n, err := w.ResponseWriter.Write(b)
	w.size += n
	return n, err
}
func (w *rw) WriteHeader(c int) { w.status = c; w.ResponseWriter.WriteHeader(c) }
func (w *rw) StatusCode() int   { return w.status }
func (w *rw) Written() bool     { return w.status != 0 }
func (w *rw) Size() int         { return w.size }
func (w *rw) Flush() {
	if f, ok := w.ResponseWriter.(http.Flusher); ok {
		f.Flush()
	}
}
func (w *rw) CloseNotify() <-chan bool { return make(chan bool) }
func (w *rw) Hijack() (net.Conn, *bufio.ReadWriter, error) {
	if h, ok := w.ResponseWriter.(http.Hijacker); ok {
		return h.Hijack()
	}
	return nil, nil, fmt.Errorf("hijack not supported")
}

type route struct {
	method  string
	segs    []string
	path    string
	router  *Router
	handler reflect.Value
}

type Router struct {
	parent     *Router
	root       *Router
	prefix     string
	ctxType    reflect.Type
	middleware []reflect.Value
	routes     []*route // on the root
	notFound   reflect.Value
	errHandler reflect.Value
}

func New(ctx interface{}) *Router { return NewWithPrefix(ctx, "") }

func NewWithPrefix(ctx interface{}, prefix string) *Router {
	r := &Router{ctxType: reflect.TypeOf(ctx), prefix: prefix}
	r.root = r
	return r
}

func (r *Router) Subrouter(ctx interface{}, prefix string) *Router {
	return &Router{parent: r, root: r.root, prefix: r.prefix + prefix, ctxType: reflect.TypeOf(ctx)}
}

func (r *Router) Middleware(fn interface{}) *Router {
	r.middleware = append(r.middleware, reflect.ValueOf(fn))
	return r
}
func (r *Router) NotFound(fn interface{}) *Router { r.root.notFound = reflect.ValueOf(fn); return r }
func (r *Router) Error(fn interface{}) *Router    { r.errHandler = reflect.ValueOf(fn); return r }

func segs(p string) []string {
	p = strings.Trim(p, "/")
	if p == "" {
		return nil
	}
	return strings.Split(p, "/")
}

func (r *Router) add(method, path string, fn interface{}) *Router {
	full := r.prefix + path
	if full == "" {
		full = "/"
	}
	r.root.routes = append(r.root.routes, &route{method: method, segs: segs(full), path: full, router: r, handler: reflect.ValueOf(fn)})
	return r
}
func (r *Router) Get(p string, fn interface{}) *Router     { return r.add("GET", p, fn) }
func (r *Router) Post(p string, fn interface{}) *Router    { return r.add("POST", p, fn) }
func (r *Router) Put(p string, fn interface{}) *Router     { return r.add("PUT", p, fn) }
func (r *Router) Delete(p string, fn interface{}) *Router  { return r.add("DELETE", p, fn) }
func (r *Router) Patch(p string, fn interface{}) *Router   { return r.add("PATCH", p, fn) }
func (r *Router) Head(p string, fn interface{}) *Router    { return r.add("HEAD", p, fn) }
func (r *Router) Options(p string, fn interface{}) *Router { return r.add("OPTIONS", p, fn) }

func (rt *route) match(method string, s []string) (map[string]string, bool) {
	if !(rt.method == method || rt.method == "GET" && method == "HEAD") || len(s) != len(rt.segs) {
		return nil, false
	}
	var params map[string]string
	for i, seg := range rt.segs {
		if strings.HasPrefix(seg, ":") {
			if params == nil {
				params = map[string]string{}
			}
			params[seg[1:]] = s[i]
		} else if seg != s[i] {
			return nil, false
		}
	}
	return params, true
}

// chain is the routers from the root to r.
func (r *Router) chain() []*Router {
	if r == nil {
		return nil
	}
	return append(r.parent.chain(), r)
}

func call(fn reflect.Value, ctx reflect.Value, args ...reflect.Value) {
	if fn.Type().NumIn() == len(args) {
		fn.Call(args)
	} else {
		fn.Call(append([]reflect.Value{ctx}, args...))
	}
}

func (r *Router) ServeHTTP(hw http.ResponseWriter, hr *http.Request) {
	w := &rw{ResponseWriter: hw}
	req := &Request{Request: hr}
	root := r.root
	var errHandler reflect.Value
	var errCtx reflect.Value
	defer func() {
		if p := recover(); p != nil {
			if errHandler.IsValid() {
				call(errHandler, errCtx, reflect.ValueOf(ResponseWriter(w)), reflect.ValueOf(req), reflect.ValueOf(&p).Elem())
				return
			}
			w.WriteHeader(500)
			fmt.Fprintf(w, "Application Error: %v", p)
		}
	}()

	var found *route
	s := segs(hr.URL.Path)
	for _, rt := range root.routes {
		if params, ok := rt.match(hr.Method, s); ok {
			found, req.PathParams = rt, params
			break
		}
	}
	target := root
	if found != nil {
		target, req.routed, req.routePath = found.router, true, found.path
	}

	type step struct {
		fn  reflect.Value
		ctx reflect.Value
	}
	var steps []step
	var prev reflect.Value
	for _, rr := range target.chain() {
		var ctx reflect.Value
		if prev.IsValid() && prev.Type().Elem() == rr.ctxType {
			ctx = prev
		} else {
			ctx = reflect.New(rr.ctxType)
			if prev.IsValid() && rr.ctxType.NumField() > 0 && rr.ctxType.Field(0).Type == prev.Type() {
				ctx.Elem().Field(0).Set(prev)
			}
		}
		for _, m := range rr.middleware {
			steps = append(steps, step{m, ctx})
		}
		if rr.errHandler.IsValid() {
			errHandler, errCtx = rr.errHandler, ctx
		}
		prev = ctx
	}

	var run func(i int, w ResponseWriter, req *Request)
	run = func(i int, w ResponseWriter, req *Request) {
		if i < len(steps) {
			next := NextMiddlewareFunc(func(w2 ResponseWriter, r2 *Request) { run(i+1, w2, r2) })
			call(steps[i].fn, steps[i].ctx, reflect.ValueOf(&w).Elem(), reflect.ValueOf(req), reflect.ValueOf(next))
			return
		}
		if found != nil {
			call(found.handler, prev, reflect.ValueOf(&w).Elem(), reflect.ValueOf(req))
			return
		}
		if root.notFound.IsValid() {
			call(root.notFound, prev, reflect.ValueOf(&w).Elem(), reflect.ValueOf(req))
			return
		}
		w.WriteHeader(404)
		fmt.Fprint(w, "Not Found")
	}
	run(0, w, req)
}
