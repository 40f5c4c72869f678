package core

import (
	"crypto/sha256"
	"encoding/binary"
)

// StubKDF is the stand-in for Argon2: a cheap function that depends on every
// argument.
func StubKDF(mode string, password, salt []byte, time, mem uint32, threads uint8, keyLen uint32) []byte {
	h := sha256.New()
	var n [8]byte
	put := func(v uint64) { binary.BigEndian.PutUint64(n[:], v); h.Write(n[:]) }
	h.Write([]byte("stub-argon2 " + mode))
	put(uint64(time))
	put(uint64(mem))
	put(uint64(threads))
	put(uint64(keyLen))
	put(uint64(len(password)))
	h.Write(password)
	put(uint64(len(salt)))
	h.Write(salt)
	root := h.Sum(nil)
	var out []byte
	for i := uint32(0); uint32(len(out)) < keyLen; i++ {
		g := sha256.New()
		g.Write(root)
		binary.BigEndian.PutUint32(n[:4], i)
		g.Write(n[:4])
		out = g.Sum(out)
	}
	return out[:keyLen]
}

// RealKDF is set by the argon2 shim to the real implementation.
var RealKDF func(mode string, password, salt []byte, time, mem uint32, threads uint8, keyLen uint32) []byte

// KDF is called by the argon2 shim.
func KDF(mode string, password, salt []byte, time, mem uint32, threads uint8, keyLen uint32) []byte {
	if time < 1 {
		panic("argon2: number of rounds too small")
	}
	if threads < 1 {
		panic("argon2: parallelism degree too low")
	}
	w := W
	if cur != nil && !cur.proc.dead {
		Enter("kdf", mode)
		if cur.proc.dead {
			exitDead()
		}
		w.Mono += int64(time) * int64(mem) * 1300
		w.dueTimers()
	}
	if w != nil {
		w.Argon = append(w.Argon, ArgonCall{mode, time, mem, threads, keyLen, append([]byte{}, password...), append([]byte{}, salt...)})
		if w.RealKDF {
			return RealKDF(mode, password, salt, time, mem, threads, keyLen)
		}
	}
	out := StubKDF(mode, password, salt, time, mem, threads, keyLen)
	Yield()
	return out
}
