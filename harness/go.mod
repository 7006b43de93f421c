module psdrv

go 1.12

require (
	github.com/dchest/bcrypt_pbkdf v0.0.0-20150205184540-83f37f9c154a
	github.com/kisom/psignify v0.0.0
	golang.org/x/crypto v0.0.0-20190530122614-20be4c3c3ed5
)

replace github.com/kisom/psignify => /repo
