//go:build inpkg

package main

import (
	"io"

	"github.com/kisom/psignify/crypto"
	"github.com/kisom/psignify/signify"
)

const haveInpkg = true

func pkgSeal(pub *signify.Public, r io.Reader, n int, w io.Writer) error {
	return crypto.VerifSeal(pub, r, n, w)
}

func pkgOpen(priv *signify.Private, r io.Reader, w io.Writer) error {
	return crypto.VerifOpen(priv, r, w)
}
