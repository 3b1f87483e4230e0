; Descriptors of message types: which fields they list, in which order, and how
; they are found by number.
(declare fd (GType 64) 64)      ; the descriptor of a struct field
(declare lnil () 64)
(declare lsnoc (64 64) 64)
(declare llen (64) 64)
(declare lelem (64 64) 64)
(declare DLIST (GType 64) 64)   ; descriptors of the visible ones among the first i fields
(declare inil () 64)
(declare iset (64 64) 64)       ; index with one more descriptor, found by its number
(declare ILIST (64 64) 64)      ; index of the first i elements of a list
(declare MI (GType 64) 64)      ; index of the visible ones among the first i fields
(group DESC C12 C02 C03 C20)
(rule (llen (lnil)) 0)
(rule (llen (lsnoc l e)) (+ (llen l) 1))
(axiom llen.range ((llen l)) (and (s<= 0 (llen l)) (s< (llen l) 0x80000000)))
(axiom tftype.def ((tftype t i)) (/= (tftype t i) (gtc <nil>)))
(axiom telem.def ((telem t)) (/= (telem t) (gtc <nil>)))
(axiom tkey.def ((tkey t)) (/= (tkey t) (gtc <nil>)))
(ondemand (DLIST t 0) (lnil))
(ondemand (DLIST t (+1 i)) (ite (vis t i) (lsnoc (DLIST t i) (fd t i)) (DLIST t i)))
(ondemand (ILIST l 0) (inil))
(ondemand (ILIST l (+1 i)) (iset (ILIST l i) (lelem l i)))
(ondemand (MI t 0) (inil))
(ondemand (MI t (+1 i)) (ite (vis t i) (iset (MI t i) (fd t i)) (MI t i)))
