//go:build !inpkg

package main

import (
	"errors"
	"io"

	"github.com/kisom/psignify/signify"
)

const haveInpkg = false

var errNoInpkg = errors.New("no in-package access")

func pkgSeal(pub *signify.Public, r io.Reader, n int, w io.Writer) error { return errNoInpkg }
func pkgOpen(priv *signify.Private, r io.Reader, w io.Writer) error      { return errNoInpkg }
