From e4f655ea1131fa31d8f25ad6fb7e8dfc05585302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:17 +0000
Subject: [PATCH 01/14] fix: LEFT ARROW discards the word being revised

Going back one word left the old word in the list, so the revised word was
appended after it and the phrase came out wrong; at the first word the index
went negative.
---
 cmd/mnemonikey/word_input.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmd/mnemonikey/word_input.go b/cmd/mnemonikey/word_input.go
index 48690e1..5bcf323 100644
--- a/cmd/mnemonikey/word_input.go
+++ b/cmd/mnemonikey/word_input.go
@@ -92,7 +92,10 @@ func userInputMnemonic() ([]string, error) {
 
 			// Left arrow, return to revise previous word index
 			if charBuf[0] == keyCodeLeftArrow {
-				i -= 1
+				if i > 0 {
+					i -= 1
+					words = words[:i]
+				}
 				break
 			}
 
-- 
2.43.0


From 4541ad9c836ea60df3f98391f7b0bf7a80939d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:17 +0000
Subject: [PATCH 02/14] fix: do not treat a capital D as the LEFT ARROW key

The arrow key sends ESC [ D (or ESC O D); a bare D is an ordinary character
which is ignored like any other upper case letter.
---
 cmd/mnemonikey/word_input.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cmd/mnemonikey/word_input.go b/cmd/mnemonikey/word_input.go
index 5bcf323..86bce9c 100644
--- a/cmd/mnemonikey/word_input.go
+++ b/cmd/mnemonikey/word_input.go
@@ -49,6 +49,9 @@ func userInputMnemonic() ([]string, error) {
 
 	words := []string{}
 
+	// The two most recent bytes read, to recognize arrow key escape sequences.
+	var prev1, prev2 byte
+
 	eprint(bold(cyan(inputHeaderMessage + "\r\n")))
 	eprint("\r\n")
 	eprint(faint("- ENTER/SPACE:    Autocomplete and submit word\r\n"))
@@ -91,7 +94,10 @@ func userInputMnemonic() ([]string, error) {
 			}
 
 			// Left arrow, return to revise previous word index
-			if charBuf[0] == keyCodeLeftArrow {
+			isLeftArrow := charBuf[0] == keyCodeLeftArrow &&
+				(prev1 == '[' || prev1 == 'O') && prev2 == escapeCode[0]
+			prev1, prev2 = charBuf[0], prev1
+			if isLeftArrow {
 				if i > 0 {
 					i -= 1
 					words = words[:i]
-- 
2.43.0


From 883deecfd175642f328e2764eff1de420586b3ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:17 +0000
Subject: [PATCH 03/14] fix: convert writes the phrase to -out-word-file

convert ignored -out-word-file and tried to write to the input word file
instead, so it failed whenever -in-word-file was given.
---
 cmd/mnemonikey/convert.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/cmd/mnemonikey/convert.go b/cmd/mnemonikey/convert.go
index 34456e7..953d4c2 100644
--- a/cmd/mnemonikey/convert.go
+++ b/cmd/mnemonikey/convert.go
@@ -13,8 +13,7 @@ type ConvertOptions struct {
 	RecoverConvertOptions
 	GenerateConvertOptions
 
-	EncryptPhrase  bool
-	OutputWordFile string
+	EncryptPhrase bool
 }
 
 var ConvertCommand = &Command[ConvertOptions]{
@@ -73,10 +72,10 @@ func decodeAndConvertPhrase(opts *ConvertOptions) (err error) {
 		}
 	}
 
-	if opts.InputWordFile == "" {
+	if opts.OutputWordFile == "" {
 		printMnemonic(recoveryMnemonic)
 	} else {
-		if err := saveMnemonic(recoveryMnemonic, opts.InputWordFile); err != nil {
+		if err := saveMnemonic(recoveryMnemonic, opts.OutputWordFile); err != nil {
 			return fmt.Errorf("failed to write words to file: %w", err)
 		}
 	}
-- 
2.43.0


From 8972ec669a0cccf73b264d257092a9f69aa5a556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:17 +0000
Subject: [PATCH 04/14] fix: never overwrite a word file created meanwhile

A file (or dangling symlink) which appeared between the existence check and
the write was truncated and overwritten. Create the file exclusively.
---
 cmd/mnemonikey/generate.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/cmd/mnemonikey/generate.go b/cmd/mnemonikey/generate.go
index f455e68..2f166cd 100644
--- a/cmd/mnemonikey/generate.go
+++ b/cmd/mnemonikey/generate.go
@@ -205,8 +205,20 @@ func saveMnemonic(words []string, wordFile string) error {
 		return fmt.Errorf("failed to write word-file to %s: path is not accessible: %w", wordFile, err)
 	}
 
+	// O_EXCL guarantees a file which appeared since the check above is not overwritten.
+	file, err := os.OpenFile(wordFile, os.O_WRONLY|os.O_CREATE|os.O_EXCL, 0600)
+	if errors.Is(err, fs.ErrExist) {
+		return fmt.Errorf("refused to write word-file to %s: file already exists", wordFile)
+	} else if err != nil {
+		return fmt.Errorf("failed to write words to file: %w", err)
+	}
+
 	wordFileContent := strings.Join(words, " ") + "\n"
-	if err := os.WriteFile(wordFile, []byte(wordFileContent), 0600); err != nil {
+	_, err = file.WriteString(wordFileContent)
+	if closeErr := file.Close(); err == nil {
+		err = closeErr
+	}
+	if err != nil {
 		return fmt.Errorf("failed to write words to file: %w", err)
 	}
 	return nil
-- 
2.43.0


From 6bbec7a13f61abb754e6997d7b39988174d6fb2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:17 +0000
Subject: [PATCH 05/14] fix: password prompts keep standard output clean and
 echo off

The goroutine watching for CTRL+C also ran when the prompt ended normally: it
printed a newline to standard output in front of (or inside) the key block, and
restored the terminal state at an arbitrary time, which could switch echo on
while the next password was typed, or not at all before the process exited
after CTRL+C. Restore the terminal before returning, and print the newline to
standard error.
---
 cmd/mnemonikey/word_input.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/cmd/mnemonikey/word_input.go b/cmd/mnemonikey/word_input.go
index 86bce9c..0a86f1a 100644
--- a/cmd/mnemonikey/word_input.go
+++ b/cmd/mnemonikey/word_input.go
@@ -245,12 +245,6 @@ func userInputPassword(prompt string, confirm bool) ([]byte, error) {
 		return nil, err
 	}
 
-	go func() {
-		<-ctx.Done()
-		fmt.Println()
-		term.Restore(int(os.Stdin.Fd()), oldState)
-	}()
-
 	passChan := make(chan []byte)
 	errChan := make(chan error, 1)
 
@@ -288,6 +282,9 @@ func userInputPassword(prompt string, confirm bool) ([]byte, error) {
 
 	select {
 	case <-ctx.Done():
+		// The password reader is still waiting with terminal echo disabled.
+		eprintln()
+		term.Restore(int(os.Stdin.Fd()), oldState)
 		return nil, errors.New("aborted")
 
 	case err := <-errChan:
@@ -295,6 +292,7 @@ func userInputPassword(prompt string, confirm bool) ([]byte, error) {
 		return nil, err
 
 	case pass := <-passChan:
+		eprintln()
 		return pass, nil
 	}
 }
-- 
2.43.0


From c8e547cfad0e642eb6023220125d017f70924608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:17 +0000
Subject: [PATCH 06/14] fix: terminate on narrow terminals

A word wider than 80% of the terminal never fit on a line, so printing the
phrase or the usage text looped forever allocating memory, or divided by zero
when the terminal reports a width of zero.
---
 cmd/mnemonikey/terminal.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cmd/mnemonikey/terminal.go b/cmd/mnemonikey/terminal.go
index 4f93511..3f7a849 100644
--- a/cmd/mnemonikey/terminal.go
+++ b/cmd/mnemonikey/terminal.go
@@ -78,10 +78,12 @@ func justifyWidth(indent, width int, text string) string {
 	indentString := strings.Repeat(" ", indent)
 
 	words := strings.Split(text, " ")
-	lines := make([]string, 0, len(text)/(indent+width)+1)
+	lines := []string{}
 
 	for len(words) > 0 {
-		line := indentString
+		// Every line holds at least one word, even if it does not fit.
+		line := indentString + words[0]
+		words = words[1:]
 		for len(words) > 0 && len(line)+len(words[0])+1 <= maxWidth {
 			if line != indentString {
 				line += " "
-- 
2.43.0


From 5552fd772ee8932edcc74f2248773a7d74895f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:17 +0000
Subject: [PATCH 07/14] fix: refuse validity periods which cannot be honoured

A TTL beyond what an OpenPGP expiration time can hold wrapped around and made a
key which expires much earlier, a huge -ttl overflowed, and a zero -ttl or one
below a second made a key which never expires.
---
 cmd/mnemonikey/expiry.go | 3 ++-
 mnemonikey.go            | 8 +++++---
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/cmd/mnemonikey/expiry.go b/cmd/mnemonikey/expiry.go
index 662016b..52d8f5e 100644
--- a/cmd/mnemonikey/expiry.go
+++ b/cmd/mnemonikey/expiry.go
@@ -3,6 +3,7 @@ package main
 import (
 	"errors"
 	"fmt"
+	"math"
 	"strconv"
 	"strings"
 	"time"
@@ -30,7 +31,7 @@ func parseTTL(input string) (time.Duration, error) {
 	}
 
 	quantity, err := strconv.ParseUint(input[:len(input)-1], 10, 64)
-	if err != nil {
+	if err != nil || quantity == 0 || quantity > math.MaxInt64/uint64(unit) {
 		return 0, badInputErr
 	}
 
diff --git a/mnemonikey.go b/mnemonikey.go
index 008dd60..3668333 100644
--- a/mnemonikey.go
+++ b/mnemonikey.go
@@ -5,6 +5,7 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"math"
 	"time"
 
 	"golang.org/x/crypto/openpgp"
@@ -23,8 +24,9 @@ const (
 )
 
 // ErrTTLInvalid is returned when constructing a Mnemonikey, if the TTL
-// selected is less than zero.
-var ErrTTLInvalid = errors.New("key time-to-live cannot be negative")
+// selected is less than zero, or cannot be represented in an OpenPGP key
+// expiration time: a number of seconds from 1 to 0xFFFFFFFF.
+var ErrTTLInvalid = errors.New("key time-to-live is negative or out of range")
 
 // ErrCreationTooLate is returned when constructing a Mnemonikey, if its creation
 // time is too far in the future to fit in CreationOffsetBitCount.
@@ -60,7 +62,7 @@ func New(seed *Seed, creation time.Time, opts *KeyOptions) (*Mnemonikey, error)
 	if opts == nil {
 		opts = new(KeyOptions)
 	}
-	if opts.TTL < 0 {
+	if opts.TTL < 0 || (opts.TTL > 0 && opts.TTL < time.Second) || opts.TTL/time.Second > math.MaxUint32 {
 		return nil, ErrTTLInvalid
 	} else if creation.After(MaxCreationTime) {
 		return nil, ErrCreationTooLate
-- 
2.43.0


From 46ba7ffc7fb584e0194565619cc8ecf486e6365c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:18 +0000
Subject: [PATCH 08/14] fix: report a key or phrase which could not be
 delivered

A failed write of the key to standard output (full disk, closed pipe), or of the
phrase to the terminal, was ignored and the command exited with status 0.
---
 cmd/mnemonikey/convert.go  |  4 +++-
 cmd/mnemonikey/generate.go | 16 ++++++++++++----
 cmd/mnemonikey/recover.go  |  5 ++++-
 3 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/cmd/mnemonikey/convert.go b/cmd/mnemonikey/convert.go
index 953d4c2..436425c 100644
--- a/cmd/mnemonikey/convert.go
+++ b/cmd/mnemonikey/convert.go
@@ -73,7 +73,9 @@ func decodeAndConvertPhrase(opts *ConvertOptions) (err error) {
 	}
 
 	if opts.OutputWordFile == "" {
-		printMnemonic(recoveryMnemonic)
+		if err := printMnemonic(recoveryMnemonic); err != nil {
+			return fmt.Errorf("failed to print words: %w", err)
+		}
 	} else {
 		if err := saveMnemonic(recoveryMnemonic, opts.OutputWordFile); err != nil {
 			return fmt.Errorf("failed to write words to file: %w", err)
diff --git a/cmd/mnemonikey/generate.go b/cmd/mnemonikey/generate.go
index 2f166cd..bdaeeb7 100644
--- a/cmd/mnemonikey/generate.go
+++ b/cmd/mnemonikey/generate.go
@@ -164,23 +164,30 @@ func generateAndPrintKey(opts *GenerateOptions) error {
 	}
 
 	eprint(magentaStart)
-	fmt.Println(pgpArmorKey)
+	_, err = fmt.Println(pgpArmorKey)
 	eprint(colorEnd)
+	if err != nil {
+		return fmt.Errorf("failed to write key to standard output: %w", err)
+	}
 
 	if opts.OutputWordFile == "" {
-		printMnemonic(recoveryMnemonic)
+		if err := printMnemonic(recoveryMnemonic); err != nil {
+			return fmt.Errorf("failed to print words: %w", err)
+		}
 	}
 
 	return nil
 }
 
-func printMnemonic(words []string) {
+func printMnemonic(words []string) error {
 	eprint("\nThis is the mnemonic phrase which can be used to recover the private key:\n\n")
 
 	for i, word := range words {
 		humanIndex := strconv.Itoa(i + 1)
 		spacing := strings.Repeat(" ", 4-len(humanIndex))
-		eprintf("%s:%s%s\n", humanIndex, spacing, bold(magenta((word))))
+		if _, err := fmt.Fprintf(os.Stderr, "%s:%s%s\n", humanIndex, spacing, bold(magenta(word))); err != nil {
+			return err
+		}
 	}
 
 	eprint("\nSave this phrase in a secure place, preferably offline, on paper.\n\n")
@@ -196,6 +203,7 @@ func printMnemonic(words []string) {
 			"If you do not save it now, you will " + bold("NEVER") + " see this phrase again.\n\n",
 		),
 	)
+	return nil
 }
 
 func saveMnemonic(words []string, wordFile string) error {
diff --git a/cmd/mnemonikey/recover.go b/cmd/mnemonikey/recover.go
index 2eaffd6..61e0d25 100644
--- a/cmd/mnemonikey/recover.go
+++ b/cmd/mnemonikey/recover.go
@@ -198,8 +198,11 @@ func recoverAndPrintKey(opts *RecoverOptions) error {
 	}
 
 	eprint(magentaStart)
-	fmt.Println(pgpArmorKey)
+	_, err = fmt.Println(pgpArmorKey)
 	eprint(colorEnd)
+	if err != nil {
+		return fmt.Errorf("failed to write key to standard output: %w", err)
+	}
 
 	return nil
 }
-- 
2.43.0


From 9c58aecd9868dcd09897eb85a7b80b6283d9ab72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:18 +0000
Subject: [PATCH 09/14] fix: NewSeed keeps its own copy of the entropy

A caller reusing or wiping its integer changed the seed afterwards, so keys and
phrases made from the same Seed did not belong together.
---
 seed.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seed.go b/seed.go
index 4d7e684..e811456 100644
--- a/seed.go
+++ b/seed.go
@@ -39,7 +39,7 @@ func NewSeed(era Era, entropyInt *big.Int) (*Seed, error) {
 
 	seed := &Seed{
 		era:   era,
-		value: entropyInt,
+		value: new(big.Int).Set(entropyInt),
 	}
 
 	return seed, nil
-- 
2.43.0


From 75d51497dc63638b61d4187baa542ffe0267c00f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:18 +0000
Subject: [PATCH 10/14] fix: notice read errors while reading the phrase

A word file which could not be read to its end, or which goes on with an
oversized token, was taken for a complete phrase.
---
 cmd/mnemonikey/recover.go    | 3 +++
 cmd/mnemonikey/word_input.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/cmd/mnemonikey/recover.go b/cmd/mnemonikey/recover.go
index 61e0d25..a9406c0 100644
--- a/cmd/mnemonikey/recover.go
+++ b/cmd/mnemonikey/recover.go
@@ -227,6 +227,9 @@ func readWordFile(fpath string) ([]string, error) {
 			return nil, fmt.Errorf("invalid format for word file")
 		}
 	}
+	if err := scanner.Err(); err != nil {
+		return nil, fmt.Errorf("failed to read word file: %w", err)
+	}
 	if len(words) == 0 {
 		return nil, fmt.Errorf("found only no words in word file %s", fpath)
 	}
diff --git a/cmd/mnemonikey/word_input.go b/cmd/mnemonikey/word_input.go
index 0a86f1a..bd5e9e9 100644
--- a/cmd/mnemonikey/word_input.go
+++ b/cmd/mnemonikey/word_input.go
@@ -193,6 +193,9 @@ func userInputMnemonicSimple() ([]string, error) {
 
 		if !scanner.Scan() {
 			eprintf("\n\n")
+			if err := scanner.Err(); err != nil {
+				return nil, fmt.Errorf("failed to read from standard input: %w", err)
+			}
 			return nil, fmt.Errorf("unexpected EOF on standard input")
 		}
 		wordInput := strings.ToLower(strings.TrimSpace(scanner.Text()))
-- 
2.43.0


From dc3212ec349cc417e5489a2d4d322907830b3119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:18 +0000
Subject: [PATCH 11/14] fix: refuse creation offsets which do not fit in a
 phrase

EncodeMnemonicPlaintext and EncodeMnemonicEncrypted panicked for an offset of
more than 31 bits; return ErrCreationTooLate instead.
---
 encoding.go   | 8 ++++++++
 parameters.go | 1 +
 2 files changed, 9 insertions(+)

diff --git a/encoding.go b/encoding.go
index fbffa64..338e3e6 100644
--- a/encoding.go
+++ b/encoding.go
@@ -47,6 +47,10 @@ func EncodeMnemonicPlaintext(seed *Seed, creationOffset uint32) ([]string, error
 		return nil, err
 	}
 
+	if creationOffset > maxCreationOffset {
+		return nil, ErrCreationTooLate
+	}
+
 	// Version 0 indicates a plaintext phrase.
 	version := MnemonicVersion(0)
 
@@ -74,6 +78,10 @@ func EncodeMnemonicEncrypted(
 		return nil, err
 	}
 
+	if creationOffset > maxCreationOffset {
+		return nil, ErrCreationTooLate
+	}
+
 	if len(password) == 0 {
 		return nil, errors.New("cannot encrypt recovery phrase with empty password")
 	}
diff --git a/parameters.go b/parameters.go
index df0bacb..49da6a7 100644
--- a/parameters.go
+++ b/parameters.go
@@ -47,6 +47,7 @@ const (
 const (
 	checksumMask      = (1 << ChecksumBitCount) - 1
 	encSeedVerifyMask = (1 << EncSeedVerifyBitCount) - 1
+	maxCreationOffset = (1 << CreationOffsetBitCount) - 1
 )
 
 // MaxCreationTime is the farthest point in the future that the mnemonikey recovery phrase
-- 
2.43.0


From b459d2e08c38e9fea6531baf6ec2ab0171f0dbb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:18 +0000
Subject: [PATCH 12/14] fix: EncodeToIndices leaves its argument alone

Encoding a payload consumed the caller's integer, so encoding it again gave
the phrase of a zero payload.
---
 mnemonic/encode.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mnemonic/encode.go b/mnemonic/encode.go
index 08b6ab0..958fae0 100644
--- a/mnemonic/encode.go
+++ b/mnemonic/encode.go
@@ -35,9 +35,10 @@ func EncodeToIndices(payloadInt *big.Int, bitSize uint) ([]uint16, error) {
 
 	nWords := (bitSize + BitsPerWord - 1) / BitsPerWord
 	indices := make([]uint16, nWords)
-	for i := nWords - 1; payloadInt.BitLen() > 0; i-- {
-		indices[i] = uint16(new(big.Int).And(payloadInt, wordMask).Uint64())
-		payloadInt.Rsh(payloadInt, BitsPerWord)
+	remaining := new(big.Int).Set(payloadInt)
+	for i := nWords - 1; remaining.BitLen() > 0; i-- {
+		indices[i] = uint16(new(big.Int).And(remaining, wordMask).Uint64())
+		remaining.Rsh(remaining, BitsPerWord)
 	}
 	return indices, nil
 }
-- 
2.43.0


From 8e07aa9169aa1a8d99fae8c65bafb9e6e450cc06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:13:51 +0000
Subject: [PATCH 13/14] fix: refuse negative seed integers

NewSeed accepted a negative integer, whose phrase would encode another seed or
panic while encoding.
---
 seed.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/seed.go b/seed.go
index e811456..bcdce4f 100644
--- a/seed.go
+++ b/seed.go
@@ -2,6 +2,7 @@ package mnemonikey
 
 import (
 	"crypto/rand"
+	"errors"
 	"fmt"
 	"io"
 	"math/big"
@@ -24,12 +25,16 @@ type Seed struct {
 //
 // Returns ErrUnsupportedSeedEra if the era number is greater than EraLatest.
 //
-// Returns an error if entropyInt's bit-length is greater than EntropyBitCount.
+// Returns an error if entropyInt is negative or its bit-length is greater than EntropyBitCount.
 func NewSeed(era Era, entropyInt *big.Int) (*Seed, error) {
 	if err := era.check(); err != nil {
 		return nil, err
 	}
 
+	if entropyInt.Sign() < 0 {
+		return nil, errors.New("provided entropy integer is negative")
+	}
+
 	if l := entropyInt.BitLen(); l > EntropyBitCount {
 		return nil, fmt.Errorf(
 			"provided entropy integer is %d bits, exceeding maximum size of %d",
-- 
2.43.0


From ce8e9b8114949bed8dbc648c1803d3a632e024b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:33 +0000
Subject: [PATCH 14/14] fix: piped words no longer make the prompts climb up
 the screen

Without a terminal on standard input nobody echoes the line breaks, so moving
to the previous line after every word erased the lines above and left the
prompts behind, mixed into the phrase or messages printed afterwards.
---
 cmd/mnemonikey/word_input.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cmd/mnemonikey/word_input.go b/cmd/mnemonikey/word_input.go
index bd5e9e9..d721333 100644
--- a/cmd/mnemonikey/word_input.go
+++ b/cmd/mnemonikey/word_input.go
@@ -183,6 +183,10 @@ func userInputMnemonicSimple() ([]string, error) {
 
 	wordCount := 1
 
+	// Words which are not typed on a terminal are not echoed there, so the line
+	// breaks between them do not move the cursor.
+	echoed := term.IsTerminal(int(os.Stdin.Fd()))
+
 	eprint(bold(cyan(inputHeaderMessage + "\n\n")))
 
 	// Establish vertical space early to allow room for printing error messages
@@ -198,6 +202,9 @@ func userInputMnemonicSimple() ([]string, error) {
 			}
 			return nil, fmt.Errorf("unexpected EOF on standard input")
 		}
+		if !echoed {
+			eprint("\n")
+		}
 		wordInput := strings.ToLower(strings.TrimSpace(scanner.Text()))
 
 		// See if the user's input might be a valid word in the wordlist.
-- 
2.43.0

