//go:build !amd64

package checks

import (
	"errors"
	"syscall"
)

const traceSupported = false

type fsOp struct {
	Call, Path, Path2 string
	N                 int
	Write             bool
	Ret               int64
}

const (
	actKill = iota
	actKillAfter
	actError
	actShort
	actFull
)

type fault struct {
	at, act, k int
	errno      syscall.Errno
}

type traced struct {
	ops            []fsOp
	exit           int
	stdout, stderr string
}

func trace(string, []string, []fault) (traced, error) {
	return traced{}, errors.New("not supported")
}
