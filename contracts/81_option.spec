; Optional values, for every type of value.
(declare tzero () 64)           ; the zero value of a type parameter
(fn Some (params v) (props C16)
  (ensures present (C16) r0.SOME)
  (ensures value (C16) (= r0.VALUE v)))
(fn None (params) (props C16)
  (ensures absent (C16) (not r0.SOME)))
(fn "(Option[T]).IsSome" (params o) (props C16) (ret o.SOME))
(fn "(Option[T]).IsNone" (params o) (props C16) (ret (not o.SOME)))
(fn "(Option[T]).Unwrap" (params o) (props C16) (ret (ite o.SOME o.VALUE (tzero))))
(fn "(Option[T]).UnwrapOr" (params o d) (props C16) (ret (ite o.SOME o.VALUE d)))
(fn Bool (params v) (props C16) (ensures some (C16) (and r0.SOME (= r0.VALUE v))))
(fn Int32 (params v) (props C16) (ensures some (C16) (and r0.SOME (= r0.VALUE v))))
(fn Int64 (params v) (props C16) (ensures some (C16) (and r0.SOME (= r0.VALUE v))))
(fn Uint32 (params v) (props C16) (ensures some (C16) (and r0.SOME (= r0.VALUE v))))
(fn Uint64 (params v) (props C16) (ensures some (C16) (and r0.SOME (= r0.VALUE v))))
(fn Float32 (params v) (props C16) (ensures some (C16) (and r0.SOME (= r0.VALUE v))))
(fn Float64 (params v) (props C16) (ensures some (C16) (and r0.SOME (= r0.VALUE v))))
(fn String (params v) (props C16) (ensures some (C16) (and r0.SOME (= r0.VALUE v))))
