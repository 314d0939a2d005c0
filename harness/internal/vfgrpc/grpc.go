// Package vfgrpc is a Jaeger query service whose answers the harness decides.
package vfgrpc

import (
	"context"
	"errors"
	"io"
	"net"

	"github.com/jaegertracing/jaeger/proto-gen/api_v3"
	"google.golang.org/grpc"
	"google.golang.org/grpc/credentials/insecure"
	"google.golang.org/grpc/metadata"
)

// Reply is the answer to one request: failing to open the stream, or chunks
// followed by the end of the stream or by an error.
type Reply struct {
	OpenErr error
	Chunks  []*api_v3.SpansResponseChunk
	Err     error
}

type Handler interface {
	Find(req *api_v3.FindTracesRequest) Reply
}

var handler Handler

// Open gives a connection whose requests h answers.
func Open(h Handler) *grpc.ClientConn {
	handler = h
	return dial()
}

func dial() *grpc.ClientConn {
	c, err := grpc.Dial("127.0.0.1:1", grpc.WithTransportCredentials(insecure.NewCredentials()),
		grpc.WithStreamInterceptor(func(ctx context.Context, desc *grpc.StreamDesc, cc *grpc.ClientConn, method string, _ grpc.Streamer, opts ...grpc.CallOption) (grpc.ClientStream, error) {
			return newStream(method)
		}))
	if err != nil {
		panic(err)
	}
	return c
}

// Listen gives the address of a server whose requests h answers, and a function
// that ends it. A server of the harness' tells errors of opening no stream.
func Listen(h Handler) (string, func()) {
	handler = h
	addr, stop := listen()
	address = addr
	return addr, stop
}

var address string

func listen() (string, func()) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	s := grpc.NewServer()
	api_v3.RegisterQueryServiceServer(s, &server{})
	go s.Serve(l)
	return l.Addr().String(), s.Stop
}

type server struct{ api_v3.QueryServiceServer }

func (*server) FindTraces(req *api_v3.FindTracesRequest, out api_v3.QueryService_FindTracesServer) error {
	r := handler.Find(req)
	for _, c := range r.Chunks {
		if err := out.Send(c); err != nil {
			return err
		}
	}
	if r.OpenErr != nil {
		return r.OpenErr
	}
	return r.Err
}

// open is where the executor sends grpc.DialContext.
func open(addr string) (*grpc.ClientConn, error) {
	if addr != address {
		return nil, errors.New("no server there")
	}
	return dial(), nil
}

type stream struct {
	r    Reply
	next int
}

// newStream is where the executor sends (*grpc.ClientConn).NewStream.
func newStream(method string) (grpc.ClientStream, error) {
	if method != "/jaeger.api_v3.QueryService/FindTraces" {
		panic("unexpected call of " + method)
	}
	return &stream{}, nil
}

func (s *stream) Header() (metadata.MD, error) { return nil, nil }
func (s *stream) Trailer() metadata.MD         { return nil }
func (s *stream) CloseSend() error             { return nil }
func (s *stream) Context() context.Context     { return context.Background() }
func (s *stream) SendMsg(m any) error {
	s.r = handler.Find(m.(*api_v3.FindTracesRequest))
	return s.r.OpenErr
}
func (s *stream) RecvMsg(m any) error {
	if s.next < len(s.r.Chunks) {
		*m.(*api_v3.SpansResponseChunk) = *s.r.Chunks[s.next]
		s.next++
		return nil
	}
	if s.r.Err != nil {
		return s.r.Err
	}
	return io.EOF
}
