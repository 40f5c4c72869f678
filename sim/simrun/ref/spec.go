// Package ref is an independent executable model of the mnemonikey
// specification (README.md): phrase encoding, key derivation, the OpenPGP
// export format, and the interactive word editor. It shares no code with the
// repository.
package ref

import (
	"crypto/aes"
	"crypto/ecdh"
	"crypto/ed25519"
	"crypto/hmac"
	"crypto/sha256"
	"encoding/binary"
	"errors"
	"math/big"
	"strings"

	"github.com/kklash/wordlist4096"
)

const (
	Epoch     = 1672531200
	MaxOffset = 1<<31 - 1
)

// KDF is Argon2id with the parameters the specification fixes (or the stub).
type KDF func(password, salt []byte, keyLen uint32) []byte

// Words is the wordlist; Index maps a word to its position.
var Words []string
var Index = map[string]int{}

func init() {
	Words = append(Words, wordlist4096.WordList[:]...)
	for i, w := range Words {
		Index[w] = i
	}
	if len(Words) != 4096 || len(Index) != 4096 {
		panic("wordlist changed")
	}
}

// crc32 with the IEEE polynomial, bit by bit.
func crc32(b []byte) uint32 {
	c := ^uint32(0)
	for _, x := range b {
		c ^= uint32(x)
		for i := 0; i < 8; i++ {
			if c&1 != 0 {
				c = c>>1 ^ 0xedb88320
			} else {
				c >>= 1
			}
		}
	}
	return ^c
}

type bits struct {
	v *big.Int
	n int
}

func (b *bits) put(v *big.Int, n int) {
	b.v = new(big.Int).Or(new(big.Int).Lsh(b.v, uint(n)), v)
	b.n += n
}
func (b *bits) putU(v uint64, n int) { b.put(new(big.Int).SetUint64(v), n) }
func (b *bits) bytes() []byte        { return b.v.FillBytes(make([]byte, (b.n+7)/8)) }

func finish(b *bits) []string {
	b.putU(uint64(crc32(b.bytes())&31), 5)
	out := make([]string, b.n/12)
	for i := range out {
		sh := uint(b.n - 12*(i+1))
		w := new(big.Int).And(new(big.Int).Rsh(b.v, sh), big.NewInt(4095))
		out[i] = Words[w.Int64()]
	}
	return out
}

// EncodePlain is the plaintext phrase for a seed and creation offset.
func EncodePlain(seed [16]byte, offset uint32) []string {
	b := &bits{new(big.Int), 0}
	b.putU(0, 4)
	b.put(new(big.Int).SetBytes(seed[:]), 128)
	b.putU(uint64(offset), 31)
	return finish(b)
}

func encKey(password []byte, salt, offset uint32, kdf KDF) []byte {
	s := &bits{new(big.Int), 0}
	s.putU(uint64(salt), 19)
	s.putU(uint64(offset), 31)
	return kdf(password, s.bytes(), 17)
}

// EncodeEnc is the password-encrypted phrase.
func EncodeEnc(seed [16]byte, offset uint32, password []byte, salt uint32, kdf KDF) []string {
	k := encKey(password, salt, offset, kdf)
	blk, err := aes.NewCipher(k[:16])
	if err != nil {
		panic(err)
	}
	var es [16]byte
	blk.Encrypt(es[:], seed[:])
	b := &bits{new(big.Int), 0}
	b.putU(1, 4)
	b.put(new(big.Int).SetBytes(es[:]), 128)
	b.putU(uint64(salt), 19)
	b.putU(uint64(k[16]&31), 5)
	b.putU(uint64(offset), 31)
	return finish(b)
}

// Errors of Decode.
var (
	ErrWord     = errors.New("word")
	ErrVersion  = errors.New("version")
	ErrCount    = errors.New("count")
	ErrChecksum = errors.New("checksum")
)

// Phrase is a decoded phrase.
type Phrase struct {
	Enc    bool
	Data   [16]byte // seed, or encrypted seed
	Salt   uint32
	Verify byte
	Offset uint32
}

// VersionOf returns the version in a first word and the phrase length it calls for.
func VersionOf(word string) (v int, size int, err error) {
	i, ok := Index[strings.ToLower(word)]
	if !ok {
		return 0, 0, ErrWord
	}
	v = i >> 8
	switch v {
	case 0:
		return v, 14, nil
	case 1:
		return v, 16, nil
	}
	return v, 0, ErrVersion
}

// Decode decodes a phrase.
func Decode(words []string) (*Phrase, error) {
	if len(words) == 0 {
		return nil, ErrCount
	}
	v, size, err := VersionOf(words[0])
	if err != nil {
		return nil, err
	}
	if len(words) != size {
		return nil, ErrCount
	}
	n := new(big.Int)
	for _, w := range words {
		i, ok := Index[strings.ToLower(w)]
		if !ok {
			return nil, ErrWord
		}
		n = new(big.Int).Or(new(big.Int).Lsh(n, 12), big.NewInt(int64(i)))
	}
	total := uint(12 * size)
	take := func(n *big.Int, from, cnt uint) *big.Int { // cnt bits starting at bit `from` from the top
		x := new(big.Int).Rsh(n, total-from-cnt)
		return x.And(x, new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), cnt), big.NewInt(1)))
	}
	sum := uint32(take(n, total-5, 5).Uint64())
	body := &bits{new(big.Int).Rsh(n, 5), int(total) - 5}
	if crc32(body.bytes())&31 != sum {
		return nil, ErrChecksum
	}
	p := &Phrase{Enc: v == 1}
	take(n, 4, 128).FillBytes(p.Data[:])
	if p.Enc {
		p.Salt = uint32(take(n, 132, 19).Uint64())
		p.Verify = byte(take(n, 151, 5).Uint64())
		p.Offset = uint32(take(n, 156, 31).Uint64())
	} else {
		p.Offset = uint32(take(n, 132, 31).Uint64())
	}
	return p, nil
}

// Open returns the seed of an encrypted phrase, or ok=false.
func (p *Phrase) Open(password []byte, kdf KDF) (seed [16]byte, ok bool) {
	if !p.Enc {
		return p.Data, true
	}
	k := encKey(password, p.Salt, p.Offset, kdf)
	if k[16]&31 != p.Verify {
		return seed, false
	}
	blk, err := aes.NewCipher(k[:16])
	if err != nil {
		panic(err)
	}
	blk.Decrypt(seed[:], p.Data[:])
	return seed, true
}

func hkdfExpand(prk []byte, info []byte, n int) []byte {
	var out, t []byte
	for i := byte(1); len(out) < n; i++ {
		m := hmac.New(sha256.New, prk)
		m.Write(t)
		m.Write(info)
		m.Write([]byte{i})
		t = m.Sum(nil)
		out = append(out, t...)
	}
	return out[:n]
}

// Pair is one derived key pair as it appears in an export.
type Pair struct {
	Type   string // master, encryption, authentication, signing
	Seed   []byte // derived 32 bytes
	Secret []byte // secret scalar/seed as exported (32 bytes, big-endian MPI value)
	Public []byte // 32 bytes
}

// Types in the order used throughout.
var SubTypes = []string{"encryption", "authentication", "signing"}

// Root derives the root key.
func Root(seed [16]byte, offset uint32, kdf KDF) []byte {
	var salt [4]byte
	binary.BigEndian.PutUint32(salt[:], Epoch+offset)
	return kdf(seed[:], salt[:], 32)
}

// Derive returns the key pair of a type and index.
func Derive(root []byte, typ string, index uint16) Pair {
	if typ == "master" {
		return edPair(typ, hkdfExpand(root, []byte("mnemonikey master key"), 32))
	}
	info := []byte("mnemonikey " + typ + " subkey")
	info = append(info, byte(index>>8), byte(index))
	s := hkdfExpand(root, info, 32)
	if typ != "encryption" {
		return edPair(typ, s)
	}
	priv := append([]byte{}, s...)
	priv[0] &= 248
	priv[31] &= 127
	priv[31] |= 64
	k, err := ecdh.X25519().NewPrivateKey(priv)
	if err != nil {
		panic(err)
	}
	rev := make([]byte, 32)
	for i := range priv {
		rev[31-i] = priv[i]
	}
	return Pair{typ, s, rev, k.PublicKey().Bytes()}
}

func edPair(typ string, seed []byte) Pair {
	k := ed25519.NewKeyFromSeed(seed)
	return Pair{typ, seed, append([]byte{}, seed...), append([]byte{}, k[32:]...)}
}
