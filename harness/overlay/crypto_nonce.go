package crypto

// VerifIncrementNonce gives the driver the nonce counter, for nonces that no
// message of any practical size would reach.
var VerifIncrementNonce func(*[24]byte) error = incrementNonce
