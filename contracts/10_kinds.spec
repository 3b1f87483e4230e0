; Abstract view of messages, kinds of codecs and the wire format.
;
; Kinds: (KSc sid fam) scalar; fam 0 plain (zero omitted), 1 required, 2 Option.
; sid: 0 bool, 1 int32 varint, 2 64-bit varint, 3 uint32 varint, 5 zigzag32,
;      6 zigzag64, 7 32-bit little endian, 8 64-bit little endian, 11 string,
;      12 bytes
; A float is its bit pattern.

; which properties a failed specification case speaks about
(group ENC C02 C01 C04 C20)
(group DEC C03 C04 C15)
(group SIZE C01)
(group ALIAS C19)
(group RDONLY C18)
(group SHARED C13 C12)
(group FRAME C05 C06 C11)
(group SAFE C05)
(label zero C08 C02 C01)
(label none C08 C01 C04)
(label nilptr C08 C11 C01)
(label payload C02 C04)
(label some C08 C04)

(declare ck (64) Kind)          ; kind a codec implements
(declare f.wt (64) 64)          ; field descriptor: number << 3 | wire type
(declare f.off (64) 64)
(declare f.codec (64) 64)
(declare infotype (64) GType)   ; message type a structInfo describes
(declare nf (GType) 64)         ; number of described fields
(declare fptr (GType 64) 64)    ; i-th field descriptor
(declare KENC (Kind 64 64 Heap) Bytes)
(declare KDe (Kind Bytes) Err)
(declare KDH (Kind Bytes 64 Heap) Heap)
(declare WT (Kind) 64)
(declare PENC (GType 64 Heap 64) Bytes)
(declare tpos (Bytes 64) 64)
(declare part (Bytes 64 64) 64)
(declare MDe (GType Bytes 64 64) Err)
(declare MDH (GType Bytes 64 64 64 Heap) Heap)

; ---- varints
(define (zz v) (^ (<< v 1) (>>s v 63)))
(define (unzz v) (^ (>> v 1) (- 0 (& v 1))))

; position of the first octet below 0x80 at or after lo (octets past the end
; of the input count as zero: the position then lies outside)
(axiom tpos.1 ((tpos R lo)) (and (s<= lo (tpos R lo)) (s< (tpos R lo) 0x4000000000000)))
(axiom tpos.2 ((tpos R lo)) (u< (bidx* R (tpos R lo)) (c8 0x80)))
(axiom tpos.3 ((tpos R lo) (bidx* R j)) (=> (and (s<= lo j) (s< j (tpos R lo))) (u<= (c8 0x80) (bidx* R j))))

; value accumulated from octets lo .. j-1
(rule (part R lo lo) 0)
(axiom part.0 ((part R lo j)) (=> (= j lo) (= (part R lo j) 0)))
(axiom part.1 ((part R lo (+1 j))) (=> (s<= lo j)
   (= (part R lo (+ j 1)) (| (part R lo j) (<< (zext64 (& (bidx* R j) (c8 0x7f))) (* 7 (- j lo)))))))

(define (vT b) (tpos (root b) (lo b)))
(define (vend b) (s<= (hi b) (vT b)))
(define (vlong b) (or (s< 9 (- (vT b) (lo b))) (and (= 9 (- (vT b) (lo b))) (u< (c8 1) (bidx* (root b) (vT b))))))
(define (vok b) (and (not (vend b)) (not (vlong b))))
(define (vn b) (+ 1 (- (vT b) (lo b))))
(define (vval b) (part (root b) (lo b) (+ 1 (vT b))))

; what a length-delimited value delimits
(define (body b) (bsl b (vn b) (blen b)))

(define (FRW w b) (ite (= w 0) (and (vok b) (= (blen b) (vn b)))
                  (ite (= w 5) (= (blen b) 4)
                  (ite (= w 1) (= (blen b) 8)
                  (ite (= w 2) (and (vok b) (u<= (vval b) (- (blen b) (vn b))) (= (blen b) (+ (vn b) (vval b))))
                       false)))))
(define (FRAMED k b) (FRW (WT k) b))

(define (scwt sid) (ite (= sid (c8 7)) 5 (ite (= sid (c8 8)) 1 (ite (or (= sid (c8 11)) (= sid (c8 12))) 2 0))))
(rule (WT (KSc sid fam)) (scwt sid))
(rule (WT (KPtr k)) (WT k))
(rule (WT (KMsg t)) 2)
(rule (WT (KSlice k)) (WT k))
(rule (WT (KMap a b c d e)) 2)

; ---- scalar payloads
(define (is32 sid) (or (= sid (c8 1)) (= sid (c8 3)) (= sid (c8 5)) (= sid (c8 7))))
(define (voff sid) (ite (= sid (c8 0)) 1 (ite (is32 sid) 4 8)))
(define (PAY sid a h)
  (ite (= sid (c8 0)) (encv (ite (ld b h a) 1 0))
  (ite (= sid (c8 1)) (encv (sext64 (ld w h a)))
  (ite (= sid (c8 2)) (encv (ld d h a))
  (ite (= sid (c8 3)) (encv (zext64 (ld w h a)))
  (ite (= sid (c8 5)) (encv (zz (sext64 (ld w h a))))
  (ite (= sid (c8 6)) (encv (zz (ld d h a)))
  (ite (= sid (c8 7)) (le (ld w h a))
  (ite (= sid (c8 8)) (le (ld d h a))
  (ite (= sid (c8 11)) (cat (encv (blen (ld s h a))) (ld s h a))
       (cat (encv (blen (ld yc h a))) (ld yc h a))))))))))))
(define (ZERO sid a h)
  (ite (= sid (c8 0)) (not (ld b h a))
  (ite (is32 sid) (= (ld w h a) (c32 0))
  (ite (= sid (c8 11)) (= (blen (ld s h a)) 0)
  (ite (= sid (c8 12)) (ld yn h a)
       (= (ld d h a) 0))))))

(rule (KENC (KSc sid fam) p wt h)
  (ite (= fam (c8 0)) (case zero (ZERO sid p h) eps (lab payload (cat (encv wt) (PAY sid p h))))
  (ite (= fam (c8 1)) (lab payload (cat (encv wt) (PAY sid p h)))
       (case none (not (ld b h p)) eps (lab payload (cat (encv wt) (PAY sid (+ p (voff sid)) h)))))))

; little-endian value of the octets of c
(define (le4 c) (| (zext32 (bn c 0)) (| (<< (zext32 (bn c 1)) (c32 8)) (| (<< (zext32 (bn c 2)) (c32 16)) (<< (zext32 (bn c 3)) (c32 24))))))
(define (le8 c) (| (zext64 (bn c 0)) (| (<< (zext64 (bn c 1)) 8) (| (<< (zext64 (bn c 2)) 16) (| (<< (zext64 (bn c 3)) 24)
                (| (<< (zext64 (bn c 4)) 32) (| (<< (zext64 (bn c 5)) 40) (| (<< (zext64 (bn c 6)) 48) (<< (zext64 (bn c 7)) 56)))))))))

(define (PUT sid c a h)
  (ite (= sid (c8 0)) (st b h a (/= (vval c) 0))
  (ite (or (= sid (c8 1)) (= sid (c8 3))) (st w h a (w32 (vval c)))
  (ite (= sid (c8 2)) (st d h a (vval c))
  ; sint32: the low 32 bits, then the zigzag undone
  (ite (= sid (c8 5)) (st w h a (w32 (unzz (zext64 (w32 (vval c))))))
  (ite (= sid (c8 6)) (st d h a (unzz (vval c)))
  (ite (= sid (c8 7)) (st w h a (le4 c))
  (ite (= sid (c8 8)) (st d h a (le8 c))
  (ite (= sid (c8 11)) (st s h a (body c))
       (st yn (st yc h a (body c)) a false))))))))))
(rule (KDe (KSc sid fam) c) ENil)
(rule (KDH (KSc sid fam) c p h)
  (ite (= fam (c8 2)) (lab some (PUT sid c (+ p (voff sid)) (st b h p true)))
       (PUT sid c p h)))

; ---- pointers and nested messages
(rule (KENC (KPtr k) p wt h)
  (case nilptr (= (ld p h p) 0) eps (KENC k (ld p h p) wt h)))
(define (MENC t p h) (PENC t p h (nf t)))
(rule (KENC (KMsg t) p wt h)
  (case nilptr (= (ld p h p) 0) eps
     (cat (encv wt) (encv (blen (MENC t (ld p h p) h))) (MENC t (ld p h p) h))))
(group RSIZE C01)
(group RENC ENC C18)
(group RDEC DEC C08)
(group RSIZESAFE C01)
(group RENCSAFE C01 C02)
(group RDECSAFE C05)
