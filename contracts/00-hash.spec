; ---- libs/cryptography/domain/hash ----
(pkg hash libs/cryptography/domain/hash)
(alias Hash hash.Hash)

(fun sha512 (Bytes) Bytes (len 64))
(fun hexenc (Bytes) Str)
(fun hexdec (Str) Bytes)
(fun hexok (Str) Bool)
(fun le64 (Int) Bytes (len 8))
(fun dec64 (Bytes) Int (nonneg))

; the digest of a byte string: 64-byte inputs are taken verbatim
(define (digest b) (if (= (len b) 64) b (sha512 b)))

(def cat ((rows (Seq Bytes)) (k Int)) Bytes
  (if (or (< k 0) (>= k (len rows))) (empty Bytes) (++ (nth rows k) (cat rows (+ k 1)))))

(func hash.adapter.FromBytes
  (params input) (results res err)
  (behavior digest
    (ensures (ok err) (not (isnil res)) (= (deref res) (digest input)) (= (len (deref res)) 64))))

(func hash.adapter.FromMultiBytes
  (params input) (results res err)
  (inv ((?m Bytes)) (= (++ ?m (cat input k)) (cat input 0)))
  (behavior concat
    (ensures (ok err) (not (isnil res)) (= (deref res) (digest (cat input 0))) (= (len (deref res)) 64))))

(func hash.adapter.FromString
  (params input) (results res err)
  (behavior text
    (ensures (= (ok err) (hexok input))
             (=> (ok err) (and (not (isnil res)) (= (deref res) (digest (hexdec input))) (= (len (deref res)) 64))))))

(func hash.Hash.Compare
  (params other) (results res)
  (behavior equal (ensures (= res (= self other)))))

(func hash.Hash.Bytes
  (results res)
  (behavior same (ensures (= res self))))

(func hash.Hash.String
  (results res)
  (behavior hex (ensures (= res (hexenc self)))))

; ranges of machine integers
(define (u64 n) (and (<= 0 n) (< n 18446744073709551616)))
(define (s64 n) (and (<= -9223372036854775808 n) (< n 9223372036854775808)))
