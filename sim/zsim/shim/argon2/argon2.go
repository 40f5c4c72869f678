// Package argon2 is the simulated golang.org/x/crypto/argon2.
package argon2

import (
	"golang.org/x/crypto/argon2"
	"zsim/core"
)

const Version = argon2.Version

func init() {
	core.RealKDF = func(mode string, password, salt []byte, time, mem uint32, threads uint8, keyLen uint32) []byte {
		if mode == "i" {
			return argon2.Key(password, salt, time, mem, threads, keyLen)
		}
		return argon2.IDKey(password, salt, time, mem, threads, keyLen)
	}
}

func IDKey(password, salt []byte, time, memory uint32, threads uint8, keyLen uint32) []byte {
	return core.KDF("id", password, salt, time, memory, threads, keyLen)
}
func Key(password, salt []byte, time, memory uint32, threads uint8, keyLen uint32) []byte {
	return core.KDF("i", password, salt, time, memory, threads, keyLen)
}
