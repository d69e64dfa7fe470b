package web

import (
	"bufio"
	"io"
	"net/http/httptest"
)

func newReader(r io.Reader) *bufio.Reader { return bufio.NewReader(r) }

func newRecorder() *httptest.ResponseRecorder { return httptest.NewRecorder() }
