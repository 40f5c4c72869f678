#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the long texts stay reviewable)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

CLI="cmd/mnemonikey/"
p("C01","Recovering from a phrase reproduces exactly the generated key",
  "Whenever key generation delivers a key and its recovery phrase (printed, saved to a word file, plaintext or password-encrypted), recovering from that phrase with the same options and password delivers the identical key: same private keys, fingerprints, creation time, user ID, expiry and export bytes when unencrypted. The phrase and the key are those the published specification assigns to the seed and creation second. This holds for every seed, creation time and option set, and however much later, on whatever machine and after whatever crashes or failed attempts the recovery is made.",
  ["inputs","histories","crash_points","configurations"],
  "every seed (including ones with leading zero bytes), every creation second the phrase can encode, every option set, every generate -> (crash, failed runs, clock and timezone changes) -> recover history",
  "Unit tests round-trip a handful of random seeds at the current time inside one process; they never restart, never change clock or environment between generation and recovery, and never reach edge seeds or offsets.",
  ["encoding.go","recovery.go","derive.go","mnemonikey.go","seed.go",CLI+"generate.go",CLI+"recover.go"],
  [("phrase codec","encoding.go:encodeMnemonic, recovery.go:DecodeMnemonic"),("key derivation","derive.go:derivePGPKeySet"),("creation time floored to the second","mnemonikey.go:New")],
  state=[("word file","the only durable copy of the phrase","-out-word-file")],
  observe=["stdout key block","stderr phrase","word file"])
p("C02","Converting a phrase never changes the key and honours its destination",
  "Any chain of conversions (adding, changing or removing a password) yields phrases that all recover the same key with the same creation time as the first phrase, each under exactly the password chosen in that step, while every earlier phrase stays valid with its own password. The converted phrase goes where the user asked: to the requested output file, otherwise to the terminal, and the input word file is never modified. A conversion that fails, is aborted or crashes leaves all existing phrases and files as they were.",
  ["histories","fault_sequences","crash_points","inputs"],
  "every chain of conversions, with file or typed input, with or without an output file, with faults, aborts and kills inside any step",
  "There is no test of the convert command at all; chains, failures inside a conversion and the file options are never exercised.",
  [CLI+"convert.go",CLI+"generate.go","encoding.go","recovery.go"],
  [("re-encode the decoded seed and offset","cmd/mnemonikey/convert.go:decodeAndConvertPhrase"),("exclusive create of the output","cmd/mnemonikey/generate.go:saveMnemonic")],
  observe=["word files","stderr phrase","exit status"])
p("C03","A recovered key depends on nothing but phrase, password and options",
  "The key material, identity, metadata and unencrypted export bytes obtained from a given phrase, password and option set are the same in every run. They do not depend on the wall clock, the timezone, the number of CPUs, system randomness, environment variables, terminal shape, the input method, earlier operations in the same process, or how concurrent work is interleaved.",
  ["configurations","schedules","histories","inputs"],
  "every pair of environments (clock, jumps, timezone, CPU count, ambient and secure randomness, environment variables, terminal size, input method), every schedule and every preceding history",
  "Tests run in one environment, once, in a fresh process; dependence on ambient state is invisible to them.",
  ["derive.go","pgp/key_set.go","pgp/master_key.go","pgp/sign.go","recovery.go",CLI+"recover.go"],
  [("all inputs to derivation are explicit","derive.go:derivePGPKeySet"),("subkey order shuffled by a generator seeded from the key","pgp/key_set.go:encodeAllSubkeyPackets")],
  observe=["stdout key block"])
p("C04","Damaged, torn or unreadable phrases never silently become a key",
  "A phrase that is too short, too long, of unsupported version, contains a word outside the wordlist or fails its checksum is always refused with a failure and no key or phrase output; in particular so is a word file that was truncated, torn or could not be read completely. A corrupted phrase of the right length made of valid words is accepted only when its embedded checksum genuinely matches, and then yields exactly the key that phrase denotes.",
  ["inputs","fault_sequences","crash_points"],
  "every corruption of every phrase: dropped, repeated, swapped or replaced words, bit errors, truncations at every byte, and read errors at every read",
  "Tests try one or two corrupted phrases; they never inject read errors or torn files, where a prefix of the input looks like the end of it.",
  ["recovery.go","mnemonic/decode.go","version.go",CLI+"recover.go",CLI+"word_input.go"],
  [("checksum, version and length checks","recovery.go:DecodeMnemonic"),("word file reader","cmd/mnemonikey/recover.go:readWordFile"),("line reader","cmd/mnemonikey/word_input.go:userInputMnemonicSimple")],
  observe=["exit status","stdout","stderr"])
p("C05","The right password always opens a phrase; wrong ones fail and can be retried",
  "For every encrypted phrase and any sequence of password attempts, the correct password, byte for byte, always yields the original seed, whatever attempts preceded it. A wrong password is refused unless it collides with the documented 5-bit check, is never accepted as the original seed, and after a refusal the user is asked again without re-entering the phrase. An encrypted phrase never yields a seed without a password and an empty password can never be chosen to encrypt one.",
  ["inputs","histories"],
  "every seed, offset, salt and password (any bytes, any length), every sequence of wrong, near-miss, empty and right attempts",
  "The one existing test tries a single wrong password (and fails one time in 32 because of the collision); attempt sequences and unusual passwords are never tried.",
  ["encoding.go","recovery.go",CLI+"recover.go",CLI+"word_input.go"],
  [("seed encryption and verification bits","encoding.go:EncodeMnemonicEncrypted, recovery.go:DecryptSeed"),("retry loop","cmd/mnemonikey/recover.go:decodeMnemonicFromInput")],
  observe=["exit status","stderr prompts","stdout key block"])
p("C06","Encrypted phrases use fresh salt, hide the seed and fail closed",
  "Every password-encrypted phrase draws its own salt from the randomness source, uses all 19 salt bits, and contains nothing about the seed other than its encryption under a key derived from the password, that salt and the creation time. If the randomness source fails or ends early, encryption fails and no phrase is produced; a source that returns data in small pieces gives the same phrase as one that does not.",
  ["fault_sequences","inputs","histories"],
  "every seed, password and randomness stream, every read of the source failing, ending early or returning short, and every sequence of encryptions in one process",
  "Tests use the system random source, which never fails or returns short reads under test, and never compare the salts of successive phrases.",
  ["encoding.go"],
  [("salt drawn per call","encoding.go:EncodeMnemonicEncrypted")],
  observe=["phrase","error"])
p("C07","Password-protected exports hide every secret and open only with that password",
  "When keys are exported with a password, every exported secret key is encrypted under that password with its own fresh random salt and IV, opens with exactly that password to exactly the secret an unprotected export would contain, and no secret bytes appear in clear anywhere in the output. Public material, signatures and metadata equal those of the unprotected export. If randomness is unavailable the export fails and nothing is delivered.",
  ["inputs","fault_sequences","histories"],
  "every key, password (any bytes and length), subset of exported keys, randomness stream and failure of any of its reads, and repeated exports of one key",
  "Tests only import one encrypted key into GnuPG; salt freshness, absence of clear secrets and failing randomness are never examined.",
  ["pgp/s2k.go","pgp/ecc_key.go","pgp/key_set.go",CLI+"generate.go",CLI+"recover.go"],
  [("iterated salted S2K and CFB encryption","pgp/s2k.go:EncryptS2K"),("one call per secret","pgp/ecc_key.go:encodePrivate")],
  observe=["stdout key block"])
p("C08","Selective export reveals exactly the requested secrets",
  "An export restricted to some key types contains the secret keys of exactly those types, and the master secret only if the master key was requested; otherwise the master appears as a secretless stub with its public key. No secret that was not requested, nor the seed, appears in any encoding anywhere in the key output, and the self-certification is present exactly when it was asked for. An unknown key type is refused before anything is generated or delivered.",
  ["inputs","configurations"],
  "every subset and ordering (with repetitions) of key types, with and without password, self-certification, indices and expiry, for generation and recovery, through the command line and the library",
  "Tests check one or two subsets by importing into GnuPG, which does not show leaked bytes.",
  ["pgp/key_set.go","pgp/ecc_key.go","key_options.go","mnemonikey.go",CLI+"common_opts.go",CLI+"generate.go",CLI+"recover.go"],
  [("stub master packet","pgp/ecc_key.go:encodePrivateDummy"),("subset selection","cmd/mnemonikey/common_opts.go:DecodeOnlyKeyTypes, key_options.go:subkeyEnabled")],
  observe=["stdout key block"])
p("C09","Every delivered key block is a valid, self-consistent OpenPGP key",
  "Every key block delivered with success parses completely as an OpenPGP secret key with a correct armor checksum and packet lengths; its user ID, self-certification, subkey bindings, cross-certification and key flags verify under the keys in it, and its secret parts match its public parts. Fingerprints, times and identifiers reported by the tool or library equal those in the block. This holds for every user ID length and content, option set, and environment.",
  ["inputs","configurations"],
  "every user ID (any bytes, empty, lengths across the packet length encodings), seed, creation time, expiry, subset, index and password",
  "Tests import a few keys with short ASCII user IDs into GnuPG; length boundaries and edge-value MPIs are not reached.",
  ["pgp/packet.go","pgp/mpi.go","pgp/sign.go","pgp/signature.go","pgp/master_key.go","pgp/user_id.go","pgp/ecc_key.go","mnemonikey.go",CLI+"terminal.go"],
  [("packet and MPI encoding","pgp/packet.go, pgp/mpi.go"),("signatures","pgp/sign.go, pgp/master_key.go"),("reported metadata","mnemonikey.go getters, cmd/mnemonikey/terminal.go:printKeyDebugInfo")],
  observe=["stdout key block","verbose stderr","library getters"])
p("C10","Success is reported only when everything was delivered",
  "A command exits with status 0 only if everything it was asked to produce (the whole key block on standard output, the whole phrase on the terminal or in the requested file) was completely written; any failed, short or refused write of these, failed read of what it needs, invalid option or abort gives a non-zero status and a message. A key block or phrase is never delivered in part or for a wrong key alongside a success status. A run that has everything it needs and meets no fault succeeds.",
  ["fault_sequences","crash_points","inputs"],
  "every failing, short or stalled write, read, open, terminal and randomness operation, at every point of every command, and every crash point",
  "Tests never make a write fail, fill a disk, or check exit statuses against what was delivered.",
  [CLI+"generate.go",CLI+"recover.go",CLI+"convert.go",CLI+"main.go",CLI+"word_input.go"],
  [("error returns to main","cmd/mnemonikey/main.go"),("checked writes","cmd/mnemonikey/generate.go, recover.go, convert.go")],
  observe=["exit status","stdout","stderr","word file"])
p("C11","Word files are never overwritten, exposed or reported good when torn",
  "Saving a phrase never modifies, truncates or replaces anything that already exists at the destination, even if it appears concurrently while the command runs, and never touches any other file. A newly created word file is readable only by its owner and, when the command succeeds, holds exactly the phrase's words separated by single spaces on one line. Commands that were not asked to save a phrase create no files.",
  ["schedules","fault_sequences","crash_points","inputs"],
  "every prior state of the destination (absent, file, directory, link, missing or forbidden parent), every moment at which another program creates it, every write fault and crash point",
  "Tests never race the destination's creation nor look at permissions or at other files.",
  [CLI+"generate.go",CLI+"convert.go"],
  [("refusal to overwrite","cmd/mnemonikey/generate.go:saveMnemonic")],
  state=[("word file","phrase on disk","-out-word-file")],
  observe=["filesystem","exit status"])
p("C12","Interactive word entry accepts exactly what the user meant",
  "In the interactive prompt, for every sequence of keystrokes the submitted phrase is what the displayed editing rules say: letters and backspace edit the current word, TAB completes it, ENTER or SPACE completes and submits it to the first matching word, LEFT ARROW returns to the previous word so that it can be entered again, other keys change nothing, and CTRL+C or CTRL+D quits. Words outside the wordlist or a first word of unsupported version are refused with the entry still open, and exactly as many words as the first word's version calls for are taken. The result does not depend on typing speed or on whether input arrives key by key or pasted.",
  ["inputs","schedules","histories"],
  "every keystroke sequence (typos, completions, revisions, unknown keys, escape sequences, aborts) and every grouping and timing of their arrival",
  "The interactive prompt has no tests at all.",
  [CLI+"word_input.go"],
  [("raw-mode editor","cmd/mnemonikey/word_input.go:userInputMnemonic")],
  state=[("accepted words","words submitted so far","cmd/mnemonikey/word_input.go:userInputMnemonic")],
  observe=["recovered key","exit status","terminal output"])
p("C13","Typed, piped and stored phrases are read the same way however they arrive",
  "The same phrase gives the same result whether it is entered interactively, line by line, through a pipe, or from a word file, regardless of letter case, surrounding or repeated whitespace and line endings the input method allows, and of how the input is split into reads or delayed. In line entry a word not in the list, or a first word of unsupported version, is reported and asked for again without disturbing the words already accepted. Input that ends or fails before the phrase is complete is an error.",
  ["inputs","schedules","fault_sequences"],
  "every phrase, spelling and layout of it, every split of the input into reads with every delay, every position of EOF or read error",
  "Tests bypass all input methods or feed whole buffers at once.",
  [CLI+"word_input.go",CLI+"recover.go","mnemonic/decode.go"],
  [("line reader","cmd/mnemonikey/word_input.go:userInputMnemonicSimple"),("word file reader","cmd/mnemonikey/recover.go:readWordFile"),("fallback when stdin is not a terminal","cmd/mnemonikey/word_input.go:userInputMnemonic")],
  observe=["stdout key block","exit status"])
p("C14","Passwords are never shown and only confirmed ones are used",
  "No password typed at a prompt is ever echoed to the terminal or written to any output or file, for any prompt, attempt or abort. When a new password is chosen it takes effect only after being typed twice identically; a mismatch or an empty password is reported and asked for again, and what is finally used is exactly the bytes typed. A password prompt works on the terminal only and fails cleanly when there is none.",
  ["inputs","schedules","histories","fault_sequences"],
  "every sequence of password entries (empty, mismatching, matching, corrected with line editing) at every prompt of every command, every schedule of the program's internal threads, and interrupts or terminal errors while waiting",
  "Password prompts have no tests; echo state across the program's internal concurrency is invisible to them.",
  [CLI+"word_input.go",CLI+"generate.go",CLI+"recover.go",CLI+"convert.go"],
  [("password prompt","cmd/mnemonikey/word_input.go:userInputPassword")],
  state=[("terminal echo flag","whether typed bytes are shown","terminal")],
  observe=["terminal screen","stdout","exported key and phrase passwords"])
p("C15","The terminal is always restored and stdout carries nothing but the key",
  "Whichever way a command ends on its own (success, error, refused input, CTRL+C or CTRL+D at a prompt, failing terminal, read or write), the terminal is left with the settings it had at the start. Standard output receives exactly the key block and its line end when a key is delivered, and nothing at all otherwise, on every path and under every schedule; phrases, prompts and messages only ever go to standard error.",
  ["schedules","fault_sequences","inputs","crash_points"],
  "every exit path, every fault at every terminal, read and write operation, every interrupt while the program waits for input, every schedule of its internal threads",
  "No test runs a command under a terminal, injects faults or interrupts it.",
  [CLI+"word_input.go",CLI+"generate.go",CLI+"recover.go",CLI+"convert.go"],
  [("deferred restore","cmd/mnemonikey/word_input.go:userInputMnemonic"),("interrupt handling","cmd/mnemonikey/word_input.go:userInputPassword")],
  state=[("terminal attributes","saved on entry and restored","terminal")],
  observe=["terminal attributes at exit","stdout bytes"])
p("C16","Every command always makes progress and terminates",
  "Given the input it asks for, every command finishes within a bounded amount of work, for any terminal size including unknown, zero and very narrow ones, any input including binary or oversized streams, any argument list and any environment. It never spins, deadlocks, crashes with a panic or grows without bound; once its input ends it stops, and while it waits at a prompt it responds to an interrupt.",
  ["inputs","configurations","schedules","fault_sequences"],
  "every terminal size, argument list, input stream and end-of-input position, every fault, every schedule",
  "A test cannot show termination for every input and window size; the help and usage layout is never run with narrow terminals.",
  [CLI+"terminal.go",CLI+"command.go",CLI+"word_input.go",CLI+"recover.go",CLI+"main.go"],
  [("text layout","cmd/mnemonikey/terminal.go:justifyWidth"),("input loops","cmd/mnemonikey/word_input.go, recover.go")],
  observe=["exit","work done","panics"])
p("C17","Concurrent and repeated library use is isolated and leaves inputs untouched",
  "Library operations running concurrently, on separate or on the same shared objects, each give the result they give alone, under every interleaving. No operation modifies its caller's arguments, and no later change by the caller to arguments it passed or to values it received alters a seed, decoded phrase or key already created. Repeating an operation on the same object gives the same answer.",
  ["schedules","histories","inputs"],
  "every interleaving of concurrent generate, encode, decode, decrypt, derive and export operations on private and shared objects, and every mutation by the caller of passed or returned buffers before, between and after them",
  "Tests call the library sequentially and never mutate arguments or results afterwards.",
  ["seed.go","recovery.go","encoding.go","mnemonikey.go","bit_buffer.go","mnemonic/encode.go","pgp/key_set.go","pgp/ecc_key.go","pgp/s2k.go"],
  [("defensive copies","seed.go, bit_buffer.go"),("no shared mutable state","all packages")],
  observe=["library results"])
p("C18","Subkey indices select stable, independent subkeys",
  "For every type and every index from 0 to 65535 the subkey obtained is the one the specification assigns, distinct from every other type and index, the same regardless of which other subkeys, indices or options are requested alongside or were requested before; the master key does not depend on indices. Generation uses index 0. An index above 65535 is refused.",
  ["inputs","histories"],
  "every triple of indices, subset of types, seed and creation time, and every history of earlier recoveries",
  "Tests use a few small indices.",
  ["derive.go","key_options.go",CLI+"recover.go"],
  [("index in the derivation info","derive.go:keyExpandInfoSubkey"),("bounds check","cmd/mnemonikey/recover.go")],
  observe=["stdout key block","library fingerprints"])
p("C19","Creation time is the generation second, bounded and exactly preserved",
  "A generated key's creation time is the current time rounded down to the whole second, in every timezone; it is the same instant in the key, in all signatures, in the phrase, in reports and after recovery. Generation is refused when the clock is before 2023-01-01T00:00:00Z or after the last encodable second (2^31-1 seconds later), and works at both bounds. Later clock changes have no effect.",
  ["configurations","inputs","histories"],
  "every clock reading (including sub-second parts and both bounds), clock jump at any point of a run, timezone and later clock",
  "Tests use the real clock only, or a few fixed times in UTC.",
  ["mnemonikey.go","parameters.go","derive.go","recovery.go","pgp/ecc_key.go","pgp/sign.go",CLI+"generate.go"],
  [("bounds and flooring","mnemonikey.go:New"),("epoch","parameters.go")],
  observe=["key creation time","phrase","exit status"])
p("C20","Expiry is exactly creation plus the requested period or refused",
  "A key with a time-to-live expires exactly that period after its creation time (days, weeks, twelfths of a 365-day year, 365-day years), identically on the master key, on every subkey and in reports, regardless of when or where it is recovered; without one it never expires. A period that is malformed, negative, zero or shorter than a second where a period was given, or too large to represent is refused, never wrapped, clamped or turned into no expiry; the fraction of a second in a longer library duration is dropped or refused.",
  ["inputs","configurations","histories"],
  "every period string and duration including extremes of the number range, every creation time, timezone and recovery time",
  "Tests parse a few short periods and check one expiry date.",
  [CLI+"expiry.go","derive.go","mnemonikey.go","pgp/master_key.go",CLI+"generate.go",CLI+"recover.go"],
  [("period parser","cmd/mnemonikey/expiry.go:parseTTL"),("expiry subpackets","pgp/master_key.go:SelfCertify, BindSubkey"),("validation","mnemonikey.go:New")],
  observe=["expiry in key block","verbose stderr","exit status"])
p("C21","Seeds use full fresh entropy and generation fails closed without it",
  "Every generated seed consists of exactly 128 bits taken from the chosen randomness source, every bit of which can take both values, and is drawn anew for each generation. With a user-chosen entropy file or stream the seed is exactly its first 16 bytes, however they are split into reads; if the source is missing, fails or ends before 16 bytes, generation fails and delivers neither key nor phrase. Nothing but the chosen source contributes to the seed.",
  ["inputs","fault_sequences","histories"],
  "every randomness stream, every failure, early end and fragmentation of its reads, and repeated generations",
  "Tests use the system source and cannot tell a weakened seed from a random one, nor make the source fail.",
  ["seed.go",CLI+"generate.go"],
  [("seed drawn from the reader","seed.go:GenerateSeed"),("source selection","cmd/mnemonikey/generate.go:generateAndPrintKey")],
  observe=["phrase","key","exit status"])
p("C22","Secrets appear only where the user asked for them",
  "Private key bytes appear only in the key block on standard output, the recovery phrase only on standard error or in the requested word file as the phrase being delivered, and passwords, seeds and derived keys nowhere else: not in verbose output, diagnostics, error messages or other files. This holds on success, on every error, abort and crash, and when recovering or converting the phrase and words already entered are never written out again as messages.",
  ["inputs","fault_sequences","crash_points"],
  "every command, option set (including verbose), input, fault, abort and crash point",
  "Tests never search the outputs of failing runs for secrets.",
  [CLI+"generate.go",CLI+"recover.go",CLI+"convert.go",CLI+"terminal.go",CLI+"word_input.go",CLI+"main.go","recovery.go","encoding.go"],
  [("separation of streams","cmd/mnemonikey/generate.go, recover.go"),("errors without secrets","recovery.go, cmd/mnemonikey/*.go")],
  observe=["stdout","stderr","terminal","files"])
p("C23","Word-index codec handles every payload size",
  "Encoding an integer of any stated bit size into word indices and decoding it again returns the same integer, uses the minimal number of words, and values or indices out of range are refused.",
  ["inputs"],"every integer, bit size and index slice",
  "Tests sample a few sizes.",
  ["mnemonic/encode.go","mnemonic/decode.go","bit_buffer.go"],[("codec","mnemonic/*.go")],observe=["return values"])
p("C24","OpenPGP primitive encodings are correct for every size",
  "Packet lengths, multiprecision integers and string-to-key counts are encoded as RFC 4880 prescribes for every value in their range.",
  ["inputs"],"every length, integer and count byte",
  "Tests only reach them through whole keys.",
  ["pgp/packet.go","pgp/mpi.go","pgp/s2k.go"],[("encoders","pgp/packet.go, pgp/mpi.go, pgp/s2k.go")],observe=["return values"])
p("C25","Builds are reproducible",
  "Building the same source with the same compiler gives byte-identical binaries on every machine.",
  ["configurations"],"every build machine and directory",
  "No test builds twice.",
  ["repro-build.sh"],[("build flags","repro-build.sh")],observe=["binary"])
p("C26","Word prompts show what is being entered and leave no word on the screen",
  "On a terminal wide enough for its lines, whenever the interactive word prompt waits for a key, the cursor's line shows the number of the word being entered, exactly the letters typed for it with the cursor right behind them, and after it the completion ENTER would add; a refused word, or letters that match no word, are reported on the line below, which is blank again as soon as the letters match. Line entry at the terminal shows the number of the word it expects and reports refused lines in the same way. Once a word is accepted, or the entry ends by completion, CTRL+C, CTRL+D or an error, no entered word stays visible on the screen, wherever on the screen the prompt began. A phrase delivered on the terminal is legible there, one numbered word per line in order.",
  ["inputs","histories"],
  "every sequence of keys and lines, split into bursts in every way, for every starting row of the cursor, way of ending and terminal at least 60 columns wide",
  "Tests have no terminal; what a sequence of control codes leaves on a screen depends on everything shown before.",
  [CLI+"word_input.go",CLI+"terminal.go",CLI+"generate.go"],
  [("interactive prompt","cmd/mnemonikey/word_input.go:userInputMnemonic"),("line prompt","cmd/mnemonikey/word_input.go:userInputMnemonicSimple"),("control codes","cmd/mnemonikey/terminal.go"),("phrase display","cmd/mnemonikey/generate.go:printMnemonic")],
  observe=["terminal screen"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
print(len(P))
