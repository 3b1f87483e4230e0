; The generator: which Go field it emits for a field of a message.

; what the protogen library says about descriptors
(declare protogen.Field.Desc (64) 64)
(declare protogen.Field.Message (64) 64)
(declare protogen.Field.Enum (64) 64)
(declare protogen.Field.Oneof (64) 64)
(declare protogen.Field.GoName (64) Bytes)
(declare protogen.Message.Fields (64) 64)
(declare protogen.Message.GoIdent.GoName (64) Bytes)
(declare protogen.Message.GoIdent.GoImportPath (64) Bytes)
(declare protogen.Message.Desc (64) 64)
(declare protogen.Enum.GoIdent.GoName (64) Bytes)
(declare protogen.Enum.GoIdent.GoImportPath (64) Bytes)
(declare protogen.Oneof.Desc (64) 64)
(declare protogen.Oneof.Fields (64) 64)
(declare protogen.Oneof.GoName (64) Bytes)
(declare protogen.Oneof.GoIdent.GoName (64) Bytes)
(declare generator.messageInfo.Message (64) 64)
(declare generator.messageInfo.isTracked (64) Bool)
(declare lib.at (64 64) 64)
(declare lib.len (64) 64)
(axiom lib.length ((lib.len x)) (s<= 0 (lib.len x)))
(declare pr.Kind (64) 8)
(declare pr.Number (64) 32)
(declare pr.Cardinality (64) 8)
(declare pr.IsList (64) Bool)
(declare pr.IsMap (64) Bool)
(declare pr.IsWeak (64) Bool)
(declare pr.IsSynthetic (64) Bool)
(declare pr.HasPresence (64) Bool)
(declare pr.IsMapEntry (64) Bool)
(declare pr.Name (64) Bytes)
(declare qid (64 Bytes Bytes) Bytes)   ; how a generated file refers to an identifier of a package
(declare quote (Bytes) Bytes)          ; strconv.Quote
(declare bqfix (Bytes) Bytes)          ; without backquotes
(declare ctext (Bytes) Bytes)          ; text of a comment: lines starting with //
(declare comment (Bytes) Bool)         ; at most one comment, no line end
(declare trimsuffix (Bytes Bytes) Bytes)
(declare s.Contains (Bytes Bytes) Bool)

(define (fdesc f) (protogen.Field.Desc f))
(define (fkind f) (pr.Kind (fdesc f)))
(define (fnum f) (sext64 (pr.Number (fdesc f))))
(define (fcard f) (pr.Cardinality (fdesc f)))
(define (mkey f) (lib.at (protogen.Message.Fields (protogen.Field.Message f)) 0))
(define (mval f) (lib.at (protogen.Message.Fields (protogen.Field.Message f)) 1))
(define (kin k a) (= k (c8 a)))
; a kind outside groups
(define (kindok k) (and (u<= 1 (zext64 k)) (u<= (zext64 k) 18) (not (kin k 10))))
(define (cardok c) (and (u<= 1 (zext64 c)) (u<= (zext64 c) 3)))
; a field of a message the library can hand out, weak fields apart
(define (field0 f) (and (/= f 0) (/= (fdesc f) 0) (kindok (fkind f)) (cardok (fcard f)) (not (pr.IsWeak (fdesc f)))
  (s< 0 (fnum f)) (s< (fnum f) 0x20000000)
  (=> (kin (fkind f) 11) (/= (protogen.Field.Message f) 0))
  (=> (kin (fkind f) 14) (/= (protogen.Field.Enum f) 0))
  (=> (or (pr.IsList (fdesc f)) (pr.IsMap (fdesc f))) (and (kin (fcard f) 3) (not (pr.HasPresence (fdesc f)))))
  (=> (pr.IsList (fdesc f)) (not (pr.IsMap (fdesc f))))))
(define (mapfield f n) (and (field0 f) (= (fnum f) n) (not (pr.IsList (fdesc f))) (not (pr.IsMap (fdesc f)))))
(define (keykind k) (and (kindok k) (not (kin k 1)) (not (kin k 2)) (not (kin k 11)) (not (kin k 12)) (not (kin k 14))))
(define (field f) (and (field0 f)
  (=> (pr.IsMap (fdesc f)) (and (kin (fkind f) 11) (s<= 2 (lib.len (protogen.Message.Fields (protogen.Field.Message f))))
     (mapfield (mkey f) 1) (mapfield (mval f) 2) (keykind (fkind (mkey f)))))))

; tags
(define (wtname k) (ite (or (kin k 8) (kin k 14) (kin k 5) (kin k 13) (kin k 3) (kin k 4)) "varint"
  (ite (kin k 17) "zigzag32" (ite (kin k 18) "zigzag64"
  (ite (or (kin k 15) (kin k 7) (kin k 2)) "fixed32" (ite (or (kin k 16) (kin k 6) (kin k 1)) "fixed64" "bytes"))))))
(define (cardname c) (ite (kin c 1) "opt" (ite (kin c 2) "req" "rep")))
(declare TV (64) Bytes)
(ondemand (TV f) (cat (wtname (fkind f)) "," (itoa (fnum f)) "," (cardname (fcard f))))
(fn "gen.fieldProtobufTagValue" (params field) (props C17)
  (requires field (field0 field))
  (ret (TV field)))

; types
(define (scname k) (ite (kin k 8) "bool" (ite (or (kin k 5) (kin k 17) (kin k 15)) "int32" (ite (or (kin k 13) (kin k 7)) "uint32"
  (ite (or (kin k 3) (kin k 18) (kin k 16)) "int64" (ite (or (kin k 4) (kin k 6)) "uint64" (ite (kin k 2) "float32" (ite (kin k 1) "float64"
  (ite (kin k 9) "string" "[]byte")))))))))
(declare EQ (64 64) Bytes)      ; how the file refers to an enum, to a message
(rule (EQ g e) (qid g (protogen.Enum.GoIdent.GoImportPath e) (protogen.Enum.GoIdent.GoName e)))
(declare MQ (64 64) Bytes)
(rule (MQ g m) (qid g (protogen.Message.GoIdent.GoImportPath m) (protogen.Message.GoIdent.GoName m)))
(declare BT (64 64) Bytes)      ; type of one value
(ondemand (BT g f) (let ((k (fkind f)))
  (ite (kin k 14) (EQ g (protogen.Field.Enum f)) (ite (kin k 11) (cat "*" (MQ g (protogen.Field.Message f))) (scname k)))))
(declare GT (64 64) Bytes)
(ondemand (GT g f) (ite (pr.IsList (fdesc f)) (cat "[]" (BT g f))
  (ite (pr.IsMap (fdesc f)) (cat "map[" (BT g (mkey f)) "]" (BT g (mval f))) (BT g f))))
(define (optional f) (and (pr.HasPresence (fdesc f)) (not (kin (fkind f) 11)) (not (kin (fkind f) 12))))
(fn "gen.fieldGoType" (params g f field) (props C17)
  (hide lib.fields lib.oneofs)
  (requires field (field field))
  (requires file (/= f 0))
  (ret (GT g field) (optional field) _))

(fn "(gen.trailingComment).String" (params c) (props C17)
  (ensures comment (C17) (comment r0)))
; library: comments are lines starting with //, each ended
(axiom lib.comment ((s.Contains (trimsuffix (ctext c) u) v)) (=> (and (= u "\n") (= v "\n") (not (s.Contains (trimsuffix (ctext c) u) v))) (comment (trimsuffix (ctext c) u))))

; the field of the generated struct
(define (member f) (and (/= (protogen.Field.Oneof f) 0) (not (pr.IsSynthetic (protogen.Oneof.Desc (protogen.Field.Oneof f))))))
(define (pair k v) (cat k ":" (bqfix (quote v))))
(define (FTAG m f) (cat (pair "protobuf" (TV f))
   (ite (pr.IsMap (fdesc f)) (cat " " (pair "protobuf_key" (TV (mkey f))) " " (pair "protobuf_val" (TV (mval f)))) eps)
   (ite (generator.messageInfo.isTracked m) " go:\"track\"" eps)))
(define (FTYPE g f) (ite (optional f) (qid g "github.com/RomiChan/protobuf/proto" (cat "Option[" (GT g f) "]")) (GT g f)))
(declare FLINE (64 64 64) Bytes)
(define (OTAG m o) (cat (pair "protobuf_oneof" (pr.Name (protogen.Oneof.Desc o))) (ite (generator.messageInfo.isTracked m) " go:\"track\"" eps)))
(ondemand (FLINE g m f) (ite (member f)
   (let ((o (protogen.Field.Oneof f)))
     (ite (= (lib.at (protogen.Oneof.Fields o) 0) f)
        (cat (protogen.Oneof.GoName o) " is" (protogen.Oneof.GoIdent.GoName o) "`" (OTAG m o) "`\n")
        eps))
   (cat (protogen.Field.GoName f) " " (FTYPE g f) "`" (FTAG m f) "`\n")))
(fn "gen.genMessageField" (params g f m field sf) (props C17)
  (hide lib.fields lib.oneofs)
  (requires field (field field))
  (requires args (and (/= g 0) (/= f 0) (/= m 0) (/= sf 0) (/= (generator.messageInfo.Message m) 0)))
  (requires oneof (=> (/= (protogen.Field.Oneof field) 0) (and (/= (protogen.Oneof.Desc (protogen.Field.Oneof field)) 0) (s< 0 (lib.len (protogen.Oneof.Fields (protogen.Field.Oneof field)))))))
  (out (cat OUT (FLINE g m field))))

; a message: its fields in order, then methods and more
(declare supported (64) Bool)   ; a message without groups and weak fields
(define (mmsg m) (generator.messageInfo.Message m))
(define (mfields m) (protogen.Message.Fields (mmsg m)))
(axiom lib.fields ((lib.at (protogen.Message.Fields m) i)) (=> (and (supported m) (s<= 0 i) (s< i (lib.len (protogen.Message.Fields m)))) (field (lib.at (protogen.Message.Fields m) i))))
(axiom lib.oneofs ((protogen.Oneof.Desc o)) (=> (/= o 0) (and (/= (protogen.Oneof.Desc o) 0) (s< 0 (lib.len (protogen.Oneof.Fields o))))))
(axiom lib.desc ((protogen.Message.Desc m)) (/= (protogen.Message.Desc m) 0))
(axiom lib.edesc ((protogen.Enum.Desc m)) (/= (protogen.Enum.Desc m) 0))
(declare protogen.Enum.Desc (64) 64)
(declare FLINES (64 64 64) Bytes)
(ondemand (FLINES g m 0) eps)
(ondemand (FLINES g m (+1 i)) (ite (s<= 0 i) (cat (FLINES g m i) (FLINE g m (lib.at (mfields m) i))) eps))
(define (FL g m) (FLINES g m (lib.len (mfields m))))
(fn "gen.genMessageFields" (params g f m) (props C17)
  (requires args (and (/= g 0) (/= f 0) (/= m 0) (/= (mmsg m) 0) (supported (mmsg m))))
  (hide FLINE)
  (flag invonly)
  (loop (s<= ?i (lib.len (mfields m))) (= ?o:bytes (cat OUT (FLINES g m ?i))))
  (out (cat OUT (FL g m)) (cat OUT (FL g m) "_ [0]func()\n")))
; the generator registers every message before it prints any
(axiom gen.registered ((lib.map (generator.fileInfo.allMessageFieldsByPtr f) m)) (/= (lib.map (generator.fileInfo.allMessageFieldsByPtr f) m) 0))
(declare generator.fileInfo.allMessageFieldsByPtr (64) 64)
(declare lib.map (64 64) 64)

(fn "gen.genMessageMethods" (params g f m) (props C17)
  (requires args (and (/= g 0) (/= f 0) (/= m 0) (/= (mmsg m) 0) (supported (mmsg m))))
  (flag grows)
  (out _))
(fn "gen.genMessageOneofWrapperTypes" (params g f m) (props C17)
  (requires args (and (/= g 0) (/= f 0) (/= m 0) (/= (mmsg m) 0) (supported (mmsg m))))
  (flag grows)
  (out _))
(declare protogen.Message.Desc (64) 64)
(define (MTYPE g m) (cat "type " (MQ g (mmsg m)) " struct {\n" (FL g m)))
(fn "gen.genMessage" (params g f m) (props C17)
  (hide FLINES)
  (requires args (and (/= g 0) (/= f 0) (/= m 0) (/= (mmsg m) 0) (supported (mmsg m))))
  (out _)
  (ensures entry (C17) (=> (pr.IsMapEntry (protogen.Message.Desc (mmsg m))) (= OUT1 OUT)))
  (ensures type (C17) (=> (not (pr.IsMapEntry (protogen.Message.Desc (mmsg m))))
    (or (starts OUT1 (cat OUT (MTYPE g m) "}\n")) (starts OUT1 (cat OUT (MTYPE g m) "_ [0]func()\n}\n"))))))
(declare generator.enumInfo.Enum (64) 64)
(declare protogen.EnumValue.Desc (64) 64)
(axiom lib.vdesc ((protogen.EnumValue.Desc m)) (/= (protogen.EnumValue.Desc m) 0))
(fn "gen.genEnum" (params g f e) (props C17)
  (flag invonly)
  (loop (s<= 0 ?i))
  (requires args (and (/= g 0) (/= e 0) (/= (generator.enumInfo.Enum e) 0)))
  (out _)
  (ensures alias (C17) (starts OUT1 (cat OUT "type " (EQ g (generator.enumInfo.Enum e)) "= int32\n"))))

; What the runtime derives from the generated field. (gty x): the type the Go
; expression x denotes in the generated file.
(declare gty (Bytes) GType)
(declare gopt (GType) GType)
(declare gslice (GType) GType)
(declare gptr (GType) GType)
(declare gmap (GType GType) GType)
(rule (tkind (gslice x)) 23)
(rule (tkind (gptr x)) 22)
(rule (tkind (gmap x y)) 21)
(rule (telem (gslice x)) x)
(rule (telem (gptr x)) x)
(rule (telem (gmap x y)) y)
(rule (tkey (gmap x y)) x)
; the encoding and wire type a kind is declared to have
(define (dsid k) (ite (kin k 8) (c8 0) (ite (or (kin k 5) (kin k 14)) (c8 1) (ite (or (kin k 3) (kin k 4)) (c8 2) (ite (kin k 13) (c8 3)
  (ite (kin k 17) (c8 5) (ite (kin k 18) (c8 6) (ite (or (kin k 7) (kin k 15) (kin k 2)) (c8 7) (ite (or (kin k 6) (kin k 16) (kin k 1)) (c8 8)
  (ite (kin k 9) (c8 11) (c8 12)))))))))))
(define (dwt k) (ite (or (kin k 8) (kin k 5) (kin k 14) (kin k 3) (kin k 4) (kin k 13) (kin k 17) (kin k 18)) 0
  (ite (or (kin k 7) (kin k 15) (kin k 2)) 5 (ite (or (kin k 6) (kin k 16) (kin k 1)) 1 2))))
(define (GM g f) (gty (MQ g (protogen.Field.Message f))))
(define (DK g f fm) (ite (kin (fkind f) 11) (KMsg (GM g f)) (KSc (dsid (fkind f)) fm)))
; the types messages and enums are declared as in generated files
(define (typed g f) (and (=> (kin (fkind f) 11) (= (tkind (GM g f)) 25)) (=> (kin (fkind f) 14) (= (gty (EQ g (protogen.Field.Enum f))) (gtc int32)))))
(lemma gen.value (props C17) (vars (g 64) (f 64))
  (hide lib.fields lib.oneofs)
  (hyp (field0 f)) (hyp (typed g f))
  (let K1 (KOF (gty (BT g f)) (tgzz (TV f)) (isfx (tgwt (TV f))) true))
  (let K0 (KOF (gty (BT g f)) (tgzz (TV f)) (isfx (tgwt (TV f))) false))
  (splitp k (1 2 3 4 5 6 7 8 9 11 12 13 14 15 16 17 18) (= (fkind f) (c8 k))
    (rw (fkind f) (c8 k))
    (rwdef (TV f))
    (rwdef (BT g f))
    (split ((= k 14) (rw (gty (EQ g (protogen.Field.Enum f))) (gtc int32))) ((/= k 14)))
    (unfold (KOF (gty (BT g f)) (tgzz (TV f)) (isfx (tgwt (TV f))) true))
    (unfold (KOF (gty (BT g f)) (tgzz (TV f)) (isfx (tgwt (TV f))) false)))
  (goal accepted (tgok (TV f)))
  (goal number (= (tgnum (TV f)) (fnum f)))
  (goal wiretype (= (tgwt (TV f)) (dwt (fkind f))))
  (goal element (= (KOF (gty (BT g f)) (tgzz (TV f)) (isfx (tgwt (TV f))) true) (DK g f (c8 1))))
  (goal single (= (KOF (gty (BT g f)) (tgzz (TV f)) (isfx (tgwt (TV f))) false) (DK g f (c8 0))))
  (goal list (/= (tkind (gty (BT g f))) 8))
  (goal plain (and (/= (tkind (gty (BT g f))) 21) (=> (= (tkind (gty (BT g f))) 23) (= (tkind (telem (gty (BT g f)))) 8)) (/= (tkind (gty (BT g f))) 25))))

; The field the generator prints, read by the Go compiler as field j of the
; struct type t, is to the runtime what the .proto declares.
(define (GK g f) (ite (pr.IsMap (fdesc f))
     (KMap (DK g (mkey f) (c8 1)) (DK g (mval f) (c8 1)) (dw (mkey f)) (dw (mval f)) (dw f))
  (ite (pr.IsList (fdesc f)) (KSlice (DK g f (c8 1)))
  (DK g f (ite (optional f) (c8 2) (c8 0))))))
(define (dw f) (| (<< (fnum f) 3) (dwt (fkind f))))
(lemma gen.field (props C17) (vars (t GType) (j 64) (g 64) (m 64) (f 64))
  (hide lib.fields lib.oneofs)
  (hyp (field f)) (hyp (not (member f)))
  (hyp (typed g f)) (hyp (=> (pr.IsMap (fdesc f)) (and (typed g (mkey f)) (typed g (mval f)))))
  (hyp (= (tftype t j) (gty (FTYPE g f))))
  (hyp (= (tftag t j) (FTAG m f)))
  (hyp (= (tfpkg t j) eps))
  (use gen.value g f)
  (split ((generator.messageInfo.isTracked m) (rw (generator.messageInfo.isTracked m) true)) ((not (generator.messageInfo.isTracked m)) (rw (generator.messageInfo.isTracked m) false)))
  (split
    ((pr.IsMap (fdesc f))
      (use gen.value g (mkey f))
      (use gen.value g (mval f))
      (rw (pr.IsMap (fdesc f)) true) (rw (pr.IsList (fdesc f)) false) (rw (pr.HasPresence (fdesc f)) false)
      (rwdef (GT g f)))
    ((pr.IsList (fdesc f))
      (rw (pr.IsList (fdesc f)) true) (rw (pr.IsMap (fdesc f)) false) (rw (pr.HasPresence (fdesc f)) false)
      (rwdef (GT g f)))
    ((and (not (pr.IsList (fdesc f))) (not (pr.IsMap (fdesc f))))
      (rw (pr.IsList (fdesc f)) false) (rw (pr.IsMap (fdesc f)) false)
      (rwdef (GT g f))
      (splitn k (1 2 3 4 5 6 7 8 9 11 12 13 14 15 16 17 18) (= (fkind f) (c8 k))
        (rw (fkind f) (c8 k))
        (rwdef (BT g f))
        (rwdef (TV f))
        (split ((pr.HasPresence (fdesc f)) (rw (pr.HasPresence (fdesc f)) true)) ((not (pr.HasPresence (fdesc f))) (rw (pr.HasPresence (fdesc f)) false)))
        (split ((= k 14) (rw (gty (EQ g (protogen.Field.Enum f))) (gtc int32))) ((/= k 14))))))
  (rw (tftype t j) (gty (FTYPE g f)))
  (rw (tftag t j) (FTAG m f))
  (rw (tfpkg t j) eps)
  (rwdef (FK t j))
  (goal visible (vis t j))
  (goal accepted (tgok (tag t j)))
  (goal number (= (tgnum (tag t j)) (fnum f)))
  (goal wire (= (TW t j) (dw f)))
  (goal entry (=> (pr.IsMap (fdesc f)) (and (tgok (tlook (tftag t j) "protobuf_key")) (tgok (tlook (tftag t j) "protobuf_val")))))
  (goal kind (= (FK t j) (GK g f))))
