// Code generated for the 32 combinations of optional interfaces. DO NOT EDIT.

package web

import (
	"io"
	"net/http"
)

func combine(mask int, w *fakeWriter) http.ResponseWriter {
	var b ctlWriter = plainWriter{w}
	hj, cn, pu, fl, rf := fakeHijack{w}, fakeNotify{w}, fakePush{w}, fakeFlush{w}, fakeReadFrom{w}
	switch mask {
	case 0:
		return struct {
			ctlWriter
		}{b}
	case 1:
		return struct {
			ctlWriter
			http.Hijacker
		}{b, hj}
	case 2:
		return struct {
			ctlWriter
			http.CloseNotifier
		}{b, cn}
	case 3:
		return struct {
			ctlWriter
			http.Hijacker
			http.CloseNotifier
		}{b, hj, cn}
	case 4:
		return struct {
			ctlWriter
			http.Pusher
		}{b, pu}
	case 5:
		return struct {
			ctlWriter
			http.Hijacker
			http.Pusher
		}{b, hj, pu}
	case 6:
		return struct {
			ctlWriter
			http.CloseNotifier
			http.Pusher
		}{b, cn, pu}
	case 7:
		return struct {
			ctlWriter
			http.Hijacker
			http.CloseNotifier
			http.Pusher
		}{b, hj, cn, pu}
	case 8:
		return struct {
			ctlWriter
			http.Flusher
		}{b, fl}
	case 9:
		return struct {
			ctlWriter
			http.Hijacker
			http.Flusher
		}{b, hj, fl}
	case 10:
		return struct {
			ctlWriter
			http.CloseNotifier
			http.Flusher
		}{b, cn, fl}
	case 11:
		return struct {
			ctlWriter
			http.Hijacker
			http.CloseNotifier
			http.Flusher
		}{b, hj, cn, fl}
	case 12:
		return struct {
			ctlWriter
			http.Pusher
			http.Flusher
		}{b, pu, fl}
	case 13:
		return struct {
			ctlWriter
			http.Hijacker
			http.Pusher
			http.Flusher
		}{b, hj, pu, fl}
	case 14:
		return struct {
			ctlWriter
			http.CloseNotifier
			http.Pusher
			http.Flusher
		}{b, cn, pu, fl}
	case 15:
		return struct {
			ctlWriter
			http.Hijacker
			http.CloseNotifier
			http.Pusher
			http.Flusher
		}{b, hj, cn, pu, fl}
	case 16:
		return struct {
			ctlWriter
			io.ReaderFrom
		}{b, rf}
	case 17:
		return struct {
			ctlWriter
			http.Hijacker
			io.ReaderFrom
		}{b, hj, rf}
	case 18:
		return struct {
			ctlWriter
			http.CloseNotifier
			io.ReaderFrom
		}{b, cn, rf}
	case 19:
		return struct {
			ctlWriter
			http.Hijacker
			http.CloseNotifier
			io.ReaderFrom
		}{b, hj, cn, rf}
	case 20:
		return struct {
			ctlWriter
			http.Pusher
			io.ReaderFrom
		}{b, pu, rf}
	case 21:
		return struct {
			ctlWriter
			http.Hijacker
			http.Pusher
			io.ReaderFrom
		}{b, hj, pu, rf}
	case 22:
		return struct {
			ctlWriter
			http.CloseNotifier
			http.Pusher
			io.ReaderFrom
		}{b, cn, pu, rf}
	case 23:
		return struct {
			ctlWriter
			http.Hijacker
			http.CloseNotifier
			http.Pusher
			io.ReaderFrom
		}{b, hj, cn, pu, rf}
	case 24:
		return struct {
			ctlWriter
			http.Flusher
			io.ReaderFrom
		}{b, fl, rf}
	case 25:
		return struct {
			ctlWriter
			http.Hijacker
			http.Flusher
			io.ReaderFrom
		}{b, hj, fl, rf}
	case 26:
		return struct {
			ctlWriter
			http.CloseNotifier
			http.Flusher
			io.ReaderFrom
		}{b, cn, fl, rf}
	case 27:
		return struct {
			ctlWriter
			http.Hijacker
			http.CloseNotifier
			http.Flusher
			io.ReaderFrom
		}{b, hj, cn, fl, rf}
	case 28:
		return struct {
			ctlWriter
			http.Pusher
			http.Flusher
			io.ReaderFrom
		}{b, pu, fl, rf}
	case 29:
		return struct {
			ctlWriter
			http.Hijacker
			http.Pusher
			http.Flusher
			io.ReaderFrom
		}{b, hj, pu, fl, rf}
	case 30:
		return struct {
			ctlWriter
			http.CloseNotifier
			http.Pusher
			http.Flusher
			io.ReaderFrom
		}{b, cn, pu, fl, rf}
	case 31:
		return struct {
			ctlWriter
			http.Hijacker
			http.CloseNotifier
			http.Pusher
			http.Flusher
			io.ReaderFrom
		}{b, hj, cn, pu, fl, rf}
	}
	_, _, _, _, _ = hj, cn, pu, fl, rf
	return nil
}

var _ io.Reader
