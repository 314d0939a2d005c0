// Package vfhttp is an HTTP server whose answers the harness decides.
package vfhttp

import (
	"bytes"
	"encoding/json"
	"io"
	"net/http"
)

type Handler interface {
	// Do gets the decoded JSON body and answers with a status and a JSON value
	// (or, as Raw, text). Numbers are json.Number.
	Do(method, url string, header map[string]string, body any) (int, any, error)
}

type Raw string

type transport struct{}

var handler Handler

// Set directs the default client to h.
func Set(h Handler) {
	handler = h
	install()
}

func install() { http.DefaultTransport = transport{}; http.DefaultClient.Transport = transport{} }

func (transport) RoundTrip(req *http.Request) (*http.Response, error) { return do(req) }

func urlOf(req *http.Request) string { return req.URL.String() }

// do is where the executor sends (*http.Client).Do.
func do(req *http.Request) (*http.Response, error) {
	var tree any
	if req.Body != nil {
		b, err := io.ReadAll(req.Body)
		if err != nil {
			return nil, err
		}
		d := json.NewDecoder(bytes.NewReader(b))
		d.UseNumber()
		if err := d.Decode(&tree); err != nil {
			return nil, err
		}
	}
	hs := map[string]string{}
	for k, v := range req.Header {
		if len(v) > 0 {
			hs[k] = v[0]
		}
	}
	st, reply, err := handler.Do(req.Method, urlOf(req), hs, tree)
	if err != nil {
		return nil, err
	}
	var rb []byte
	if r, ok := reply.(Raw); ok {
		rb = []byte(string(r))
	} else {
		rb, err = json.Marshal(reply)
		if err != nil {
			return nil, err
		}
	}
	return &http.Response{StatusCode: st, Status: http.StatusText(st), Body: io.NopCloser(bytes.NewReader(rb)), Header: http.Header{}, Request: req}, nil
}
