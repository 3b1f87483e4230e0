; Struct tags: number, wire type and zigzag of a field as functions of its text.

(declare spl (Bytes 64) Bytes)   ; i-th comma separated part
(declare nspl (Bytes) 64)
(declare atoi (Bytes) 64)
(declare isnum (Bytes) Bool)
(declare tlook (Bytes Bytes) Bytes)  ; value of a key of a struct tag
(declare haslook (Bytes Bytes) Bool)

(define (tgwok g) (or (= (spl g 0) "varint") (= (spl g 0) "bytes") (= (spl g 0) "fixed32") (= (spl g 0) "fixed64") (= (spl g 0) "zigzag32") (= (spl g 0) "zigzag64")))
(define (tgwt g) (ite (= (spl g 0) "bytes") 2 (ite (= (spl g 0) "fixed32") 5 (ite (= (spl g 0) "fixed64") 1 0))))
(define (tgzz g) (or (= (spl g 0) "zigzag32") (= (spl g 0) "zigzag64")))
(define (tgnum g) (ite (and (tgwok g) (s< 1 (nspl g)) (isnum (spl g 1))) (atoi (spl g 1)) 0))
(define (tgok g) (and (tgwok g) (=> (s< 1 (nspl g)) (isnum (spl g 1)))
   (=> (s< 2 (nspl g)) (or (= (spl g 2) "opt") (= (spl g 2) "req") (= (spl g 2) "rep")))))
(define (tgw g) (| (<< (tgnum g) 3) (tgwt g)))

; the tags of message fields
(declare tftype (GType 64) GType)
(declare tftag (GType 64) Bytes)
(declare tfoff (GType 64) 64)
(declare tfpkg (GType 64) Bytes)
(declare tnf (GType) 64)
(axiom tnf.range ((tnf t)) (and (s<= 0 (tnf t)) (s< (tnf t) 0x80000000)))
(declare structof (GType GType Bytes Bytes) GType)   ; reflect.StructOf of two exported fields
(declare tkind (GType) 64)      ; reflect.Kind
(rule (tnf (structof a b c d)) 2)
(rule (tkind (structof a b c d)) 25)
(rule (tftype (structof a b c d) 0) a)
(rule (tftype (structof a b c d) 1) b)
(rule (tftag (structof a b c d) 0) c)
(rule (tftag (structof a b c d) 1) d)
(rule (tfoff (structof a b c d) 0) 0)
(rule (tfpkg (structof a b c d) 0) eps)
(rule (tfpkg (structof a b c d) 1) eps)
(define (tag t j) (tlook (tftag t j) "protobuf"))
(define (vis t j) (and (= (tfpkg t j) eps) (haslook (tftag t j) "protobuf")))
(define (TW t j) (tgw (tag t j)))

(fn "parseStructTag" (params tag) (props C12 C17)
  (ensures wiretype (C12 C17) (= r0.wireType (tgwt tag)))
  (ensures number (C12 C17) (= r0.fieldNumber (tgnum tag)))
  (ensures zigzag (C12 C17) (= r0.zigzag (tgzz tag)))
  (ensures accepted (C12 C17) (= (= r1 ENil) (tgok tag))))
(fn "formatWireTag" (params wire zigzag) (props C10)
  (requires wiretype (or (= (& wire 7) 0) (= (& wire 7) 1) (= (& wire 7) 2) (= (& wire 7) 5)))
  (requires zigzag (=> zigzag (= (& wire 7) 0)))
  (ensures tag (C10) (and (haslook r0 "protobuf") (tgok (tlook r0 "protobuf"))))
  (ensures number (C10) (= (tgnum (tlook r0 "protobuf")) (>> wire 3)))
  (ensures wiretype (C10) (= (tgwt (tlook r0 "protobuf")) (& wire 7)))
  (ensures zigzag (C10) (= (tgzz (tlook r0 "protobuf")) zigzag)))
