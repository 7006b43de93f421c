package crypto

// Added through a build overlay only: gives the driver the two functions that
// the package's own tests call.

var (
	VerifSeal = seal
	VerifOpen = open
)
