//go:build innonce

package main

import "github.com/kisom/psignify/crypto"

func init() { nextNonce = crypto.VerifIncrementNonce }
