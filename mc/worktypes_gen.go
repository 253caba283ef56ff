// Code generated by tools/gen_worktypes.py; DO NOT EDIT.

package main

import "reflect"

type wkCS2t0 struct {
	F0 []wkCS2t0
	F1 []wkCS2t1
}
type wkCS2t1 struct {
	F0 []wkCS2t0
	F1 []wkCS2t1
}
type wkCS4t0 struct {
	F0 []wkCS4t0
	F1 []wkCS4t1
	F2 []wkCS4t2
	F3 []wkCS4t3
}
type wkCS4t1 struct {
	F0 []wkCS4t0
	F1 []wkCS4t1
	F2 []wkCS4t2
	F3 []wkCS4t3
}
type wkCS4t2 struct {
	F0 []wkCS4t0
	F1 []wkCS4t1
	F2 []wkCS4t2
	F3 []wkCS4t3
}
type wkCS4t3 struct {
	F0 []wkCS4t0
	F1 []wkCS4t1
	F2 []wkCS4t2
	F3 []wkCS4t3
}
type wkCS6t0 struct {
	F0 []wkCS6t0
	F1 []wkCS6t1
	F2 []wkCS6t2
	F3 []wkCS6t3
	F4 []wkCS6t4
	F5 []wkCS6t5
}
type wkCS6t1 struct {
	F0 []wkCS6t0
	F1 []wkCS6t1
	F2 []wkCS6t2
	F3 []wkCS6t3
	F4 []wkCS6t4
	F5 []wkCS6t5
}
type wkCS6t2 struct {
	F0 []wkCS6t0
	F1 []wkCS6t1
	F2 []wkCS6t2
	F3 []wkCS6t3
	F4 []wkCS6t4
	F5 []wkCS6t5
}
type wkCS6t3 struct {
	F0 []wkCS6t0
	F1 []wkCS6t1
	F2 []wkCS6t2
	F3 []wkCS6t3
	F4 []wkCS6t4
	F5 []wkCS6t5
}
type wkCS6t4 struct {
	F0 []wkCS6t0
	F1 []wkCS6t1
	F2 []wkCS6t2
	F3 []wkCS6t3
	F4 []wkCS6t4
	F5 []wkCS6t5
}
type wkCS6t5 struct {
	F0 []wkCS6t0
	F1 []wkCS6t1
	F2 []wkCS6t2
	F3 []wkCS6t3
	F4 []wkCS6t4
	F5 []wkCS6t5
}
type wkCS8t0 struct {
	F0 []wkCS8t0
	F1 []wkCS8t1
	F2 []wkCS8t2
	F3 []wkCS8t3
	F4 []wkCS8t4
	F5 []wkCS8t5
	F6 []wkCS8t6
	F7 []wkCS8t7
}
type wkCS8t1 struct {
	F0 []wkCS8t0
	F1 []wkCS8t1
	F2 []wkCS8t2
	F3 []wkCS8t3
	F4 []wkCS8t4
	F5 []wkCS8t5
	F6 []wkCS8t6
	F7 []wkCS8t7
}
type wkCS8t2 struct {
	F0 []wkCS8t0
	F1 []wkCS8t1
	F2 []wkCS8t2
	F3 []wkCS8t3
	F4 []wkCS8t4
	F5 []wkCS8t5
	F6 []wkCS8t6
	F7 []wkCS8t7
}
type wkCS8t3 struct {
	F0 []wkCS8t0
	F1 []wkCS8t1
	F2 []wkCS8t2
	F3 []wkCS8t3
	F4 []wkCS8t4
	F5 []wkCS8t5
	F6 []wkCS8t6
	F7 []wkCS8t7
}
type wkCS8t4 struct {
	F0 []wkCS8t0
	F1 []wkCS8t1
	F2 []wkCS8t2
	F3 []wkCS8t3
	F4 []wkCS8t4
	F5 []wkCS8t5
	F6 []wkCS8t6
	F7 []wkCS8t7
}
type wkCS8t5 struct {
	F0 []wkCS8t0
	F1 []wkCS8t1
	F2 []wkCS8t2
	F3 []wkCS8t3
	F4 []wkCS8t4
	F5 []wkCS8t5
	F6 []wkCS8t6
	F7 []wkCS8t7
}
type wkCS8t6 struct {
	F0 []wkCS8t0
	F1 []wkCS8t1
	F2 []wkCS8t2
	F3 []wkCS8t3
	F4 []wkCS8t4
	F5 []wkCS8t5
	F6 []wkCS8t6
	F7 []wkCS8t7
}
type wkCS8t7 struct {
	F0 []wkCS8t0
	F1 []wkCS8t1
	F2 []wkCS8t2
	F3 []wkCS8t3
	F4 []wkCS8t4
	F5 []wkCS8t5
	F6 []wkCS8t6
	F7 []wkCS8t7
}
type wkCS9t0 struct {
	F0 []wkCS9t0
	F1 []wkCS9t1
	F2 []wkCS9t2
	F3 []wkCS9t3
	F4 []wkCS9t4
	F5 []wkCS9t5
	F6 []wkCS9t6
	F7 []wkCS9t7
	F8 []wkCS9t8
}
type wkCS9t1 struct {
	F0 []wkCS9t0
	F1 []wkCS9t1
	F2 []wkCS9t2
	F3 []wkCS9t3
	F4 []wkCS9t4
	F5 []wkCS9t5
	F6 []wkCS9t6
	F7 []wkCS9t7
	F8 []wkCS9t8
}
type wkCS9t2 struct {
	F0 []wkCS9t0
	F1 []wkCS9t1
	F2 []wkCS9t2
	F3 []wkCS9t3
	F4 []wkCS9t4
	F5 []wkCS9t5
	F6 []wkCS9t6
	F7 []wkCS9t7
	F8 []wkCS9t8
}
type wkCS9t3 struct {
	F0 []wkCS9t0
	F1 []wkCS9t1
	F2 []wkCS9t2
	F3 []wkCS9t3
	F4 []wkCS9t4
	F5 []wkCS9t5
	F6 []wkCS9t6
	F7 []wkCS9t7
	F8 []wkCS9t8
}
type wkCS9t4 struct {
	F0 []wkCS9t0
	F1 []wkCS9t1
	F2 []wkCS9t2
	F3 []wkCS9t3
	F4 []wkCS9t4
	F5 []wkCS9t5
	F6 []wkCS9t6
	F7 []wkCS9t7
	F8 []wkCS9t8
}
type wkCS9t5 struct {
	F0 []wkCS9t0
	F1 []wkCS9t1
	F2 []wkCS9t2
	F3 []wkCS9t3
	F4 []wkCS9t4
	F5 []wkCS9t5
	F6 []wkCS9t6
	F7 []wkCS9t7
	F8 []wkCS9t8
}
type wkCS9t6 struct {
	F0 []wkCS9t0
	F1 []wkCS9t1
	F2 []wkCS9t2
	F3 []wkCS9t3
	F4 []wkCS9t4
	F5 []wkCS9t5
	F6 []wkCS9t6
	F7 []wkCS9t7
	F8 []wkCS9t8
}
type wkCS9t7 struct {
	F0 []wkCS9t0
	F1 []wkCS9t1
	F2 []wkCS9t2
	F3 []wkCS9t3
	F4 []wkCS9t4
	F5 []wkCS9t5
	F6 []wkCS9t6
	F7 []wkCS9t7
	F8 []wkCS9t8
}
type wkCS9t8 struct {
	F0 []wkCS9t0
	F1 []wkCS9t1
	F2 []wkCS9t2
	F3 []wkCS9t3
	F4 []wkCS9t4
	F5 []wkCS9t5
	F6 []wkCS9t6
	F7 []wkCS9t7
	F8 []wkCS9t8
}
type wkCS10t0 struct {
	F0 []wkCS10t0
	F1 []wkCS10t1
	F2 []wkCS10t2
	F3 []wkCS10t3
	F4 []wkCS10t4
	F5 []wkCS10t5
	F6 []wkCS10t6
	F7 []wkCS10t7
	F8 []wkCS10t8
	F9 []wkCS10t9
}
type wkCS10t1 struct {
	F0 []wkCS10t0
	F1 []wkCS10t1
	F2 []wkCS10t2
	F3 []wkCS10t3
	F4 []wkCS10t4
	F5 []wkCS10t5
	F6 []wkCS10t6
	F7 []wkCS10t7
	F8 []wkCS10t8
	F9 []wkCS10t9
}
type wkCS10t2 struct {
	F0 []wkCS10t0
	F1 []wkCS10t1
	F2 []wkCS10t2
	F3 []wkCS10t3
	F4 []wkCS10t4
	F5 []wkCS10t5
	F6 []wkCS10t6
	F7 []wkCS10t7
	F8 []wkCS10t8
	F9 []wkCS10t9
}
type wkCS10t3 struct {
	F0 []wkCS10t0
	F1 []wkCS10t1
	F2 []wkCS10t2
	F3 []wkCS10t3
	F4 []wkCS10t4
	F5 []wkCS10t5
	F6 []wkCS10t6
	F7 []wkCS10t7
	F8 []wkCS10t8
	F9 []wkCS10t9
}
type wkCS10t4 struct {
	F0 []wkCS10t0
	F1 []wkCS10t1
	F2 []wkCS10t2
	F3 []wkCS10t3
	F4 []wkCS10t4
	F5 []wkCS10t5
	F6 []wkCS10t6
	F7 []wkCS10t7
	F8 []wkCS10t8
	F9 []wkCS10t9
}
type wkCS10t5 struct {
	F0 []wkCS10t0
	F1 []wkCS10t1
	F2 []wkCS10t2
	F3 []wkCS10t3
	F4 []wkCS10t4
	F5 []wkCS10t5
	F6 []wkCS10t6
	F7 []wkCS10t7
	F8 []wkCS10t8
	F9 []wkCS10t9
}
type wkCS10t6 struct {
	F0 []wkCS10t0
	F1 []wkCS10t1
	F2 []wkCS10t2
	F3 []wkCS10t3
	F4 []wkCS10t4
	F5 []wkCS10t5
	F6 []wkCS10t6
	F7 []wkCS10t7
	F8 []wkCS10t8
	F9 []wkCS10t9
}
type wkCS10t7 struct {
	F0 []wkCS10t0
	F1 []wkCS10t1
	F2 []wkCS10t2
	F3 []wkCS10t3
	F4 []wkCS10t4
	F5 []wkCS10t5
	F6 []wkCS10t6
	F7 []wkCS10t7
	F8 []wkCS10t8
	F9 []wkCS10t9
}
type wkCS10t8 struct {
	F0 []wkCS10t0
	F1 []wkCS10t1
	F2 []wkCS10t2
	F3 []wkCS10t3
	F4 []wkCS10t4
	F5 []wkCS10t5
	F6 []wkCS10t6
	F7 []wkCS10t7
	F8 []wkCS10t8
	F9 []wkCS10t9
}
type wkCS10t9 struct {
	F0 []wkCS10t0
	F1 []wkCS10t1
	F2 []wkCS10t2
	F3 []wkCS10t3
	F4 []wkCS10t4
	F5 []wkCS10t5
	F6 []wkCS10t6
	F7 []wkCS10t7
	F8 []wkCS10t8
	F9 []wkCS10t9
}
type wkCS11t0 struct {
	F0  []wkCS11t0
	F1  []wkCS11t1
	F2  []wkCS11t2
	F3  []wkCS11t3
	F4  []wkCS11t4
	F5  []wkCS11t5
	F6  []wkCS11t6
	F7  []wkCS11t7
	F8  []wkCS11t8
	F9  []wkCS11t9
	F10 []wkCS11t10
}
type wkCS11t1 struct {
	F0  []wkCS11t0
	F1  []wkCS11t1
	F2  []wkCS11t2
	F3  []wkCS11t3
	F4  []wkCS11t4
	F5  []wkCS11t5
	F6  []wkCS11t6
	F7  []wkCS11t7
	F8  []wkCS11t8
	F9  []wkCS11t9
	F10 []wkCS11t10
}
type wkCS11t2 struct {
	F0  []wkCS11t0
	F1  []wkCS11t1
	F2  []wkCS11t2
	F3  []wkCS11t3
	F4  []wkCS11t4
	F5  []wkCS11t5
	F6  []wkCS11t6
	F7  []wkCS11t7
	F8  []wkCS11t8
	F9  []wkCS11t9
	F10 []wkCS11t10
}
type wkCS11t3 struct {
	F0  []wkCS11t0
	F1  []wkCS11t1
	F2  []wkCS11t2
	F3  []wkCS11t3
	F4  []wkCS11t4
	F5  []wkCS11t5
	F6  []wkCS11t6
	F7  []wkCS11t7
	F8  []wkCS11t8
	F9  []wkCS11t9
	F10 []wkCS11t10
}
type wkCS11t4 struct {
	F0  []wkCS11t0
	F1  []wkCS11t1
	F2  []wkCS11t2
	F3  []wkCS11t3
	F4  []wkCS11t4
	F5  []wkCS11t5
	F6  []wkCS11t6
	F7  []wkCS11t7
	F8  []wkCS11t8
	F9  []wkCS11t9
	F10 []wkCS11t10
}
type wkCS11t5 struct {
	F0  []wkCS11t0
	F1  []wkCS11t1
	F2  []wkCS11t2
	F3  []wkCS11t3
	F4  []wkCS11t4
	F5  []wkCS11t5
	F6  []wkCS11t6
	F7  []wkCS11t7
	F8  []wkCS11t8
	F9  []wkCS11t9
	F10 []wkCS11t10
}
type wkCS11t6 struct {
	F0  []wkCS11t0
	F1  []wkCS11t1
	F2  []wkCS11t2
	F3  []wkCS11t3
	F4  []wkCS11t4
	F5  []wkCS11t5
	F6  []wkCS11t6
	F7  []wkCS11t7
	F8  []wkCS11t8
	F9  []wkCS11t9
	F10 []wkCS11t10
}
type wkCS11t7 struct {
	F0  []wkCS11t0
	F1  []wkCS11t1
	F2  []wkCS11t2
	F3  []wkCS11t3
	F4  []wkCS11t4
	F5  []wkCS11t5
	F6  []wkCS11t6
	F7  []wkCS11t7
	F8  []wkCS11t8
	F9  []wkCS11t9
	F10 []wkCS11t10
}
type wkCS11t8 struct {
	F0  []wkCS11t0
	F1  []wkCS11t1
	F2  []wkCS11t2
	F3  []wkCS11t3
	F4  []wkCS11t4
	F5  []wkCS11t5
	F6  []wkCS11t6
	F7  []wkCS11t7
	F8  []wkCS11t8
	F9  []wkCS11t9
	F10 []wkCS11t10
}
type wkCS11t9 struct {
	F0  []wkCS11t0
	F1  []wkCS11t1
	F2  []wkCS11t2
	F3  []wkCS11t3
	F4  []wkCS11t4
	F5  []wkCS11t5
	F6  []wkCS11t6
	F7  []wkCS11t7
	F8  []wkCS11t8
	F9  []wkCS11t9
	F10 []wkCS11t10
}
type wkCS11t10 struct {
	F0  []wkCS11t0
	F1  []wkCS11t1
	F2  []wkCS11t2
	F3  []wkCS11t3
	F4  []wkCS11t4
	F5  []wkCS11t5
	F6  []wkCS11t6
	F7  []wkCS11t7
	F8  []wkCS11t8
	F9  []wkCS11t9
	F10 []wkCS11t10
}
type wkCS12t0 struct {
	F0  []wkCS12t0
	F1  []wkCS12t1
	F2  []wkCS12t2
	F3  []wkCS12t3
	F4  []wkCS12t4
	F5  []wkCS12t5
	F6  []wkCS12t6
	F7  []wkCS12t7
	F8  []wkCS12t8
	F9  []wkCS12t9
	F10 []wkCS12t10
	F11 []wkCS12t11
}
type wkCS12t1 struct {
	F0  []wkCS12t0
	F1  []wkCS12t1
	F2  []wkCS12t2
	F3  []wkCS12t3
	F4  []wkCS12t4
	F5  []wkCS12t5
	F6  []wkCS12t6
	F7  []wkCS12t7
	F8  []wkCS12t8
	F9  []wkCS12t9
	F10 []wkCS12t10
	F11 []wkCS12t11
}
type wkCS12t2 struct {
	F0  []wkCS12t0
	F1  []wkCS12t1
	F2  []wkCS12t2
	F3  []wkCS12t3
	F4  []wkCS12t4
	F5  []wkCS12t5
	F6  []wkCS12t6
	F7  []wkCS12t7
	F8  []wkCS12t8
	F9  []wkCS12t9
	F10 []wkCS12t10
	F11 []wkCS12t11
}
type wkCS12t3 struct {
	F0  []wkCS12t0
	F1  []wkCS12t1
	F2  []wkCS12t2
	F3  []wkCS12t3
	F4  []wkCS12t4
	F5  []wkCS12t5
	F6  []wkCS12t6
	F7  []wkCS12t7
	F8  []wkCS12t8
	F9  []wkCS12t9
	F10 []wkCS12t10
	F11 []wkCS12t11
}
type wkCS12t4 struct {
	F0  []wkCS12t0
	F1  []wkCS12t1
	F2  []wkCS12t2
	F3  []wkCS12t3
	F4  []wkCS12t4
	F5  []wkCS12t5
	F6  []wkCS12t6
	F7  []wkCS12t7
	F8  []wkCS12t8
	F9  []wkCS12t9
	F10 []wkCS12t10
	F11 []wkCS12t11
}
type wkCS12t5 struct {
	F0  []wkCS12t0
	F1  []wkCS12t1
	F2  []wkCS12t2
	F3  []wkCS12t3
	F4  []wkCS12t4
	F5  []wkCS12t5
	F6  []wkCS12t6
	F7  []wkCS12t7
	F8  []wkCS12t8
	F9  []wkCS12t9
	F10 []wkCS12t10
	F11 []wkCS12t11
}
type wkCS12t6 struct {
	F0  []wkCS12t0
	F1  []wkCS12t1
	F2  []wkCS12t2
	F3  []wkCS12t3
	F4  []wkCS12t4
	F5  []wkCS12t5
	F6  []wkCS12t6
	F7  []wkCS12t7
	F8  []wkCS12t8
	F9  []wkCS12t9
	F10 []wkCS12t10
	F11 []wkCS12t11
}
type wkCS12t7 struct {
	F0  []wkCS12t0
	F1  []wkCS12t1
	F2  []wkCS12t2
	F3  []wkCS12t3
	F4  []wkCS12t4
	F5  []wkCS12t5
	F6  []wkCS12t6
	F7  []wkCS12t7
	F8  []wkCS12t8
	F9  []wkCS12t9
	F10 []wkCS12t10
	F11 []wkCS12t11
}
type wkCS12t8 struct {
	F0  []wkCS12t0
	F1  []wkCS12t1
	F2  []wkCS12t2
	F3  []wkCS12t3
	F4  []wkCS12t4
	F5  []wkCS12t5
	F6  []wkCS12t6
	F7  []wkCS12t7
	F8  []wkCS12t8
	F9  []wkCS12t9
	F10 []wkCS12t10
	F11 []wkCS12t11
}
type wkCS12t9 struct {
	F0  []wkCS12t0
	F1  []wkCS12t1
	F2  []wkCS12t2
	F3  []wkCS12t3
	F4  []wkCS12t4
	F5  []wkCS12t5
	F6  []wkCS12t6
	F7  []wkCS12t7
	F8  []wkCS12t8
	F9  []wkCS12t9
	F10 []wkCS12t10
	F11 []wkCS12t11
}
type wkCS12t10 struct {
	F0  []wkCS12t0
	F1  []wkCS12t1
	F2  []wkCS12t2
	F3  []wkCS12t3
	F4  []wkCS12t4
	F5  []wkCS12t5
	F6  []wkCS12t6
	F7  []wkCS12t7
	F8  []wkCS12t8
	F9  []wkCS12t9
	F10 []wkCS12t10
	F11 []wkCS12t11
}
type wkCS12t11 struct {
	F0  []wkCS12t0
	F1  []wkCS12t1
	F2  []wkCS12t2
	F3  []wkCS12t3
	F4  []wkCS12t4
	F5  []wkCS12t5
	F6  []wkCS12t6
	F7  []wkCS12t7
	F8  []wkCS12t8
	F9  []wkCS12t9
	F10 []wkCS12t10
	F11 []wkCS12t11
}
type wkCS16t0 struct {
	F0  []wkCS16t0
	F1  []wkCS16t1
	F2  []wkCS16t2
	F3  []wkCS16t3
	F4  []wkCS16t4
	F5  []wkCS16t5
	F6  []wkCS16t6
	F7  []wkCS16t7
	F8  []wkCS16t8
	F9  []wkCS16t9
	F10 []wkCS16t10
	F11 []wkCS16t11
	F12 []wkCS16t12
	F13 []wkCS16t13
	F14 []wkCS16t14
	F15 []wkCS16t15
}
type wkCS16t1 struct {
	F0  []wkCS16t0
	F1  []wkCS16t1
	F2  []wkCS16t2
	F3  []wkCS16t3
	F4  []wkCS16t4
	F5  []wkCS16t5
	F6  []wkCS16t6
	F7  []wkCS16t7
	F8  []wkCS16t8
	F9  []wkCS16t9
	F10 []wkCS16t10
	F11 []wkCS16t11
	F12 []wkCS16t12
	F13 []wkCS16t13
	F14 []wkCS16t14
	F15 []wkCS16t15
}
type wkCS16t2 struct {
	F0  []wkCS16t0
	F1  []wkCS16t1
	F2  []wkCS16t2
	F3  []wkCS16t3
	F4  []wkCS16t4
	F5  []wkCS16t5
	F6  []wkCS16t6
	F7  []wkCS16t7
	F8  []wkCS16t8
	F9  []wkCS16t9
	F10 []wkCS16t10
	F11 []wkCS16t11
	F12 []wkCS16t12
	F13 []wkCS16t13
	F14 []wkCS16t14
	F15 []wkCS16t15
}
type wkCS16t3 struct {
	F0  []wkCS16t0
	F1  []wkCS16t1
	F2  []wkCS16t2
	F3  []wkCS16t3
	F4  []wkCS16t4
	F5  []wkCS16t5
	F6  []wkCS16t6
	F7  []wkCS16t7
	F8  []wkCS16t8
	F9  []wkCS16t9
	F10 []wkCS16t10
	F11 []wkCS16t11
	F12 []wkCS16t12
	F13 []wkCS16t13
	F14 []wkCS16t14
	F15 []wkCS16t15
}
type wkCS16t4 struct {
	F0  []wkCS16t0
	F1  []wkCS16t1
	F2  []wkCS16t2
	F3  []wkCS16t3
	F4  []wkCS16t4
	F5  []wkCS16t5
	F6  []wkCS16t6
	F7  []wkCS16t7
	F8  []wkCS16t8
	F9  []wkCS16t9
	F10 []wkCS16t10
	F11 []wkCS16t11
	F12 []wkCS16t12
	F13 []wkCS16t13
	F14 []wkCS16t14
	F15 []wkCS16t15
}
type wkCS16t5 struct {
	F0  []wkCS16t0
	F1  []wkCS16t1
	F2  []wkCS16t2
	F3  []wkCS16t3
	F4  []wkCS16t4
	F5  []wkCS16t5
	F6  []wkCS16t6
	F7  []wkCS16t7
	F8  []wkCS16t8
	F9  []wkCS16t9
	F10 []wkCS16t10
	F11 []wkCS16t11
	F12 []wkCS16t12
	F13 []wkCS16t13
	F14 []wkCS16t14
	F15 []wkCS16t15
}
type wkCS16t6 struct {
	F0  []wkCS16t0
	F1  []wkCS16t1
	F2  []wkCS16t2
	F3  []wkCS16t3
	F4  []wkCS16t4
	F5  []wkCS16t5
	F6  []wkCS16t6
	F7  []wkCS16t7
	F8  []wkCS16t8
	F9  []wkCS16t9
	F10 []wkCS16t10
	F11 []wkCS16t11
	F12 []wkCS16t12
	F13 []wkCS16t13
	F14 []wkCS16t14
	F15 []wkCS16t15
}
type wkCS16t7 struct {
	F0  []wkCS16t0
	F1  []wkCS16t1
	F2  []wkCS16t2
	F3  []wkCS16t3
	F4  []wkCS16t4
	F5  []wkCS16t5
	F6  []wkCS16t6
	F7  []wkCS16t7
	F8  []wkCS16t8
	F9  []wkCS16t9
	F10 []wkCS16t10
	F11 []wkCS16t11
	F12 []wkCS16t12
	F13 []wkCS16t13
	F14 []wkCS16t14
	F15 []wkCS16t15
}
type wkCS16t8 struct {
	F0  []wkCS16t0
	F1  []wkCS16t1
	F2  []wkCS16t2
	F3  []wkCS16t3
	F4  []wkCS16t4
	F5  []wkCS16t5
	F6  []wkCS16t6
	F7  []wkCS16t7
	F8  []wkCS16t8
	F9  []wkCS16t9
	F10 []wkCS16t10
	F11 []wkCS16t11
	F12 []wkCS16t12
	F13 []wkCS16t13
	F14 []wkCS16t14
	F15 []wkCS16t15
}
type wkCS16t9 struct {
	F0  []wkCS16t0
	F1  []wkCS16t1
	F2  []wkCS16t2
	F3  []wkCS16t3
	F4  []wkCS16t4
	F5  []wkCS16t5
	F6  []wkCS16t6
	F7  []wkCS16t7
	F8  []wkCS16t8
	F9  []wkCS16t9
	F10 []wkCS16t10
	F11 []wkCS16t11
	F12 []wkCS16t12
	F13 []wkCS16t13
	F14 []wkCS16t14
	F15 []wkCS16t15
}
type wkCS16t10 struct {
	F0  []wkCS16t0
	F1  []wkCS16t1
	F2  []wkCS16t2
	F3  []wkCS16t3
	F4  []wkCS16t4
	F5  []wkCS16t5
	F6  []wkCS16t6
	F7  []wkCS16t7
	F8  []wkCS16t8
	F9  []wkCS16t9
	F10 []wkCS16t10
	F11 []wkCS16t11
	F12 []wkCS16t12
	F13 []wkCS16t13
	F14 []wkCS16t14
	F15 []wkCS16t15
}
type wkCS16t11 struct {
	F0  []wkCS16t0
	F1  []wkCS16t1
	F2  []wkCS16t2
	F3  []wkCS16t3
	F4  []wkCS16t4
	F5  []wkCS16t5
	F6  []wkCS16t6
	F7  []wkCS16t7
	F8  []wkCS16t8
	F9  []wkCS16t9
	F10 []wkCS16t10
	F11 []wkCS16t11
	F12 []wkCS16t12
	F13 []wkCS16t13
	F14 []wkCS16t14
	F15 []wkCS16t15
}
type wkCS16t12 struct {
	F0  []wkCS16t0
	F1  []wkCS16t1
	F2  []wkCS16t2
	F3  []wkCS16t3
	F4  []wkCS16t4
	F5  []wkCS16t5
	F6  []wkCS16t6
	F7  []wkCS16t7
	F8  []wkCS16t8
	F9  []wkCS16t9
	F10 []wkCS16t10
	F11 []wkCS16t11
	F12 []wkCS16t12
	F13 []wkCS16t13
	F14 []wkCS16t14
	F15 []wkCS16t15
}
type wkCS16t13 struct {
	F0  []wkCS16t0
	F1  []wkCS16t1
	F2  []wkCS16t2
	F3  []wkCS16t3
	F4  []wkCS16t4
	F5  []wkCS16t5
	F6  []wkCS16t6
	F7  []wkCS16t7
	F8  []wkCS16t8
	F9  []wkCS16t9
	F10 []wkCS16t10
	F11 []wkCS16t11
	F12 []wkCS16t12
	F13 []wkCS16t13
	F14 []wkCS16t14
	F15 []wkCS16t15
}
type wkCS16t14 struct {
	F0  []wkCS16t0
	F1  []wkCS16t1
	F2  []wkCS16t2
	F3  []wkCS16t3
	F4  []wkCS16t4
	F5  []wkCS16t5
	F6  []wkCS16t6
	F7  []wkCS16t7
	F8  []wkCS16t8
	F9  []wkCS16t9
	F10 []wkCS16t10
	F11 []wkCS16t11
	F12 []wkCS16t12
	F13 []wkCS16t13
	F14 []wkCS16t14
	F15 []wkCS16t15
}
type wkCS16t15 struct {
	F0  []wkCS16t0
	F1  []wkCS16t1
	F2  []wkCS16t2
	F3  []wkCS16t3
	F4  []wkCS16t4
	F5  []wkCS16t5
	F6  []wkCS16t6
	F7  []wkCS16t7
	F8  []wkCS16t8
	F9  []wkCS16t9
	F10 []wkCS16t10
	F11 []wkCS16t11
	F12 []wkCS16t12
	F13 []wkCS16t13
	F14 []wkCS16t14
	F15 []wkCS16t15
}
type wkCS24t0 struct {
	F0  []wkCS24t0
	F1  []wkCS24t1
	F2  []wkCS24t2
	F3  []wkCS24t3
	F4  []wkCS24t4
	F5  []wkCS24t5
	F6  []wkCS24t6
	F7  []wkCS24t7
	F8  []wkCS24t8
	F9  []wkCS24t9
	F10 []wkCS24t10
	F11 []wkCS24t11
	F12 []wkCS24t12
	F13 []wkCS24t13
	F14 []wkCS24t14
	F15 []wkCS24t15
	F16 []wkCS24t16
	F17 []wkCS24t17
	F18 []wkCS24t18
	F19 []wkCS24t19
	F20 []wkCS24t20
	F21 []wkCS24t21
	F22 []wkCS24t22
	F23 []wkCS24t23
}
type wkCS24t1 struct {
	F0  []wkCS24t0
	F1  []wkCS24t1
	F2  []wkCS24t2
	F3  []wkCS24t3
	F4  []wkCS24t4
	F5  []wkCS24t5
	F6  []wkCS24t6
	F7  []wkCS24t7
	F8  []wkCS24t8
	F9  []wkCS24t9
	F10 []wkCS24t10
	F11 []wkCS24t11
	F12 []wkCS24t12
	F13 []wkCS24t13
	F14 []wkCS24t14
	F15 []wkCS24t15
	F16 []wkCS24t16
	F17 []wkCS24t17
	F18 []wkCS24t18
	F19 []wkCS24t19
	F20 []wkCS24t20
	F21 []wkCS24t21
	F22 []wkCS24t22
	F23 []wkCS24t23
}
type wkCS24t2 struct {
	F0  []wkCS24t0
	F1  []wkCS24t1
	F2  []wkCS24t2
	F3  []wkCS24t3
	F4  []wkCS24t4
	F5  []wkCS24t5
	F6  []wkCS24t6
	F7  []wkCS24t7
	F8  []wkCS24t8
	F9  []wkCS24t9
	F10 []wkCS24t10
	F11 []wkCS24t11
	F12 []wkCS24t12
	F13 []wkCS24t13
	F14 []wkCS24t14
	F15 []wkCS24t15
	F16 []wkCS24t16
	F17 []wkCS24t17
	F18 []wkCS24t18
	F19 []wkCS24t19
	F20 []wkCS24t20
	F21 []wkCS24t21
	F22 []wkCS24t22
	F23 []wkCS24t23
}
type wkCS24t3 struct {
	F0  []wkCS24t0
	F1  []wkCS24t1
	F2  []wkCS24t2
	F3  []wkCS24t3
	F4  []wkCS24t4
	F5  []wkCS24t5
	F6  []wkCS24t6
	F7  []wkCS24t7
	F8  []wkCS24t8
	F9  []wkCS24t9
	F10 []wkCS24t10
	F11 []wkCS24t11
	F12 []wkCS24t12
	F13 []wkCS24t13
	F14 []wkCS24t14
	F15 []wkCS24t15
	F16 []wkCS24t16
	F17 []wkCS24t17
	F18 []wkCS24t18
	F19 []wkCS24t19
	F20 []wkCS24t20
	F21 []wkCS24t21
	F22 []wkCS24t22
	F23 []wkCS24t23
}
type wkCS24t4 struct {
	F0  []wkCS24t0
	F1  []wkCS24t1
	F2  []wkCS24t2
	F3  []wkCS24t3
	F4  []wkCS24t4
	F5  []wkCS24t5
	F6  []wkCS24t6
	F7  []wkCS24t7
	F8  []wkCS24t8
	F9  []wkCS24t9
	F10 []wkCS24t10
	F11 []wkCS24t11
	F12 []wkCS24t12
	F13 []wkCS24t13
	F14 []wkCS24t14
	F15 []wkCS24t15
	F16 []wkCS24t16
	F17 []wkCS24t17
	F18 []wkCS24t18
	F19 []wkCS24t19
	F20 []wkCS24t20
	F21 []wkCS24t21
	F22 []wkCS24t22
	F23 []wkCS24t23
}
type wkCS24t5 struct {
	F0  []wkCS24t0
	F1  []wkCS24t1
	F2  []wkCS24t2
	F3  []wkCS24t3
	F4  []wkCS24t4
	F5  []wkCS24t5
	F6  []wkCS24t6
	F7  []wkCS24t7
	F8  []wkCS24t8
	F9  []wkCS24t9
	F10 []wkCS24t10
	F11 []wkCS24t11
	F12 []wkCS24t12
	F13 []wkCS24t13
	F14 []wkCS24t14
	F15 []wkCS24t15
	F16 []wkCS24t16
	F17 []wkCS24t17
	F18 []wkCS24t18
	F19 []wkCS24t19
	F20 []wkCS24t20
	F21 []wkCS24t21
	F22 []wkCS24t22
	F23 []wkCS24t23
}
type wkCS24t6 struct {
	F0  []wkCS24t0
	F1  []wkCS24t1
	F2  []wkCS24t2
	F3  []wkCS24t3
	F4  []wkCS24t4
	F5  []wkCS24t5
	F6  []wkCS24t6
	F7  []wkCS24t7
	F8  []wkCS24t8
	F9  []wkCS24t9
	F10 []wkCS24t10
	F11 []wkCS24t11
	F12 []wkCS24t12
	F13 []wkCS24t13
	F14 []wkCS24t14
	F15 []wkCS24t15
	F16 []wkCS24t16
	F17 []wkCS24t17
	F18 []wkCS24t18
	F19 []wkCS24t19
	F20 []wkCS24t20
	F21 []wkCS24t21
	F22 []wkCS24t22
	F23 []wkCS24t23
}
type wkCS24t7 struct {
	F0  []wkCS24t0
	F1  []wkCS24t1
	F2  []wkCS24t2
	F3  []wkCS24t3
	F4  []wkCS24t4
	F5  []wkCS24t5
	F6  []wkCS24t6
	F7  []wkCS24t7
	F8  []wkCS24t8
	F9  []wkCS24t9
	F10 []wkCS24t10
	F11 []wkCS24t11
	F12 []wkCS24t12
	F13 []wkCS24t13
	F14 []wkCS24t14
	F15 []wkCS24t15
	F16 []wkCS24t16
	F17 []wkCS24t17
	F18 []wkCS24t18
	F19 []wkCS24t19
	F20 []wkCS24t20
	F21 []wkCS24t21
	F22 []wkCS24t22
	F23 []wkCS24t23
}
type wkCS24t8 struct {
	F0  []wkCS24t0
	F1  []wkCS24t1
	F2  []wkCS24t2
	F3  []wkCS24t3
	F4  []wkCS24t4
	F5  []wkCS24t5
	F6  []wkCS24t6
	F7  []wkCS24t7
	F8  []wkCS24t8
	F9  []wkCS24t9
	F10 []wkCS24t10
	F11 []wkCS24t11
	F12 []wkCS24t12
	F13 []wkCS24t13
	F14 []wkCS24t14
	F15 []wkCS24t15
	F16 []wkCS24t16
	F17 []wkCS24t17
	F18 []wkCS24t18
	F19 []wkCS24t19
	F20 []wkCS24t20
	F21 []wkCS24t21
	F22 []wkCS24t22
	F23 []wkCS24t23
}
type wkCS24t9 struct {
	F0  []wkCS24t0
	F1  []wkCS24t1
	F2  []wkCS24t2
	F3  []wkCS24t3
	F4  []wkCS24t4
	F5  []wkCS24t5
	F6  []wkCS24t6
	F7  []wkCS24t7
	F8  []wkCS24t8
	F9  []wkCS24t9
	F10 []wkCS24t10
	F11 []wkCS24t11
	F12 []wkCS24t12
	F13 []wkCS24t13
	F14 []wkCS24t14
	F15 []wkCS24t15
	F16 []wkCS24t16
	F17 []wkCS24t17
	F18 []wkCS24t18
	F19 []wkCS24t19
	F20 []wkCS24t20
	F21 []wkCS24t21
	F22 []wkCS24t22
	F23 []wkCS24t23
}
type wkCS24t10 struct {
	F0  []wkCS24t0
	F1  []wkCS24t1
	F2  []wkCS24t2
	F3  []wkCS24t3
	F4  []wkCS24t4
	F5  []wkCS24t5
	F6  []wkCS24t6
	F7  []wkCS24t7
	F8  []wkCS24t8
	F9  []wkCS24t9
	F10 []wkCS24t10
	F11 []wkCS24t11
	F12 []wkCS24t12
	F13 []wkCS24t13
	F14 []wkCS24t14
	F15 []wkCS24t15
	F16 []wkCS24t16
	F17 []wkCS24t17
	F18 []wkCS24t18
	F19 []wkCS24t19
	F20 []wkCS24t20
	F21 []wkCS24t21
	F22 []wkCS24t22
	F23 []wkCS24t23
}
type wkCS24t11 struct {
	F0  []wkCS24t0
	F1  []wkCS24t1
	F2  []wkCS24t2
	F3  []wkCS24t3
	F4  []wkCS24t4
	F5  []wkCS24t5
	F6  []wkCS24t6
	F7  []wkCS24t7
	F8  []wkCS24t8
	F9  []wkCS24t9
	F10 []wkCS24t10
	F11 []wkCS24t11
	F12 []wkCS24t12
	F13 []wkCS24t13
	F14 []wkCS24t14
	F15 []wkCS24t15
	F16 []wkCS24t16
	F17 []wkCS24t17
	F18 []wkCS24t18
	F19 []wkCS24t19
	F20 []wkCS24t20
	F21 []wkCS24t21
	F22 []wkCS24t22
	F23 []wkCS24t23
}
type wkCS24t12 struct {
	F0  []wkCS24t0
	F1  []wkCS24t1
	F2  []wkCS24t2
	F3  []wkCS24t3
	F4  []wkCS24t4
	F5  []wkCS24t5
	F6  []wkCS24t6
	F7  []wkCS24t7
	F8  []wkCS24t8
	F9  []wkCS24t9
	F10 []wkCS24t10
	F11 []wkCS24t11
	F12 []wkCS24t12
	F13 []wkCS24t13
	F14 []wkCS24t14
	F15 []wkCS24t15
	F16 []wkCS24t16
	F17 []wkCS24t17
	F18 []wkCS24t18
	F19 []wkCS24t19
	F20 []wkCS24t20
	F21 []wkCS24t21
	F22 []wkCS24t22
	F23 []wkCS24t23
}
type wkCS24t13 struct {
	F0  []wkCS24t0
	F1  []wkCS24t1
	F2  []wkCS24t2
	F3  []wkCS24t3
	F4  []wkCS24t4
	F5  []wkCS24t5
	F6  []wkCS24t6
	F7  []wkCS24t7
	F8  []wkCS24t8
	F9  []wkCS24t9
	F10 []wkCS24t10
	F11 []wkCS24t11
	F12 []wkCS24t12
	F13 []wkCS24t13
	F14 []wkCS24t14
	F15 []wkCS24t15
	F16 []wkCS24t16
	F17 []wkCS24t17
	F18 []wkCS24t18
	F19 []wkCS24t19
	F20 []wkCS24t20
	F21 []wkCS24t21
	F22 []wkCS24t22
	F23 []wkCS24t23
}
type wkCS24t14 struct {
	F0  []wkCS24t0
	F1  []wkCS24t1
	F2  []wkCS24t2
	F3  []wkCS24t3
	F4  []wkCS24t4
	F5  []wkCS24t5
	F6  []wkCS24t6
	F7  []wkCS24t7
	F8  []wkCS24t8
	F9  []wkCS24t9
	F10 []wkCS24t10
	F11 []wkCS24t11
	F12 []wkCS24t12
	F13 []wkCS24t13
	F14 []wkCS24t14
	F15 []wkCS24t15
	F16 []wkCS24t16
	F17 []wkCS24t17
	F18 []wkCS24t18
	F19 []wkCS24t19
	F20 []wkCS24t20
	F21 []wkCS24t21
	F22 []wkCS24t22
	F23 []wkCS24t23
}
type wkCS24t15 struct {
	F0  []wkCS24t0
	F1  []wkCS24t1
	F2  []wkCS24t2
	F3  []wkCS24t3
	F4  []wkCS24t4
	F5  []wkCS24t5
	F6  []wkCS24t6
	F7  []wkCS24t7
	F8  []wkCS24t8
	F9  []wkCS24t9
	F10 []wkCS24t10
	F11 []wkCS24t11
	F12 []wkCS24t12
	F13 []wkCS24t13
	F14 []wkCS24t14
	F15 []wkCS24t15
	F16 []wkCS24t16
	F17 []wkCS24t17
	F18 []wkCS24t18
	F19 []wkCS24t19
	F20 []wkCS24t20
	F21 []wkCS24t21
	F22 []wkCS24t22
	F23 []wkCS24t23
}
type wkCS24t16 struct {
	F0  []wkCS24t0
	F1  []wkCS24t1
	F2  []wkCS24t2
	F3  []wkCS24t3
	F4  []wkCS24t4
	F5  []wkCS24t5
	F6  []wkCS24t6
	F7  []wkCS24t7
	F8  []wkCS24t8
	F9  []wkCS24t9
	F10 []wkCS24t10
	F11 []wkCS24t11
	F12 []wkCS24t12
	F13 []wkCS24t13
	F14 []wkCS24t14
	F15 []wkCS24t15
	F16 []wkCS24t16
	F17 []wkCS24t17
	F18 []wkCS24t18
	F19 []wkCS24t19
	F20 []wkCS24t20
	F21 []wkCS24t21
	F22 []wkCS24t22
	F23 []wkCS24t23
}
type wkCS24t17 struct {
	F0  []wkCS24t0
	F1  []wkCS24t1
	F2  []wkCS24t2
	F3  []wkCS24t3
	F4  []wkCS24t4
	F5  []wkCS24t5
	F6  []wkCS24t6
	F7  []wkCS24t7
	F8  []wkCS24t8
	F9  []wkCS24t9
	F10 []wkCS24t10
	F11 []wkCS24t11
	F12 []wkCS24t12
	F13 []wkCS24t13
	F14 []wkCS24t14
	F15 []wkCS24t15
	F16 []wkCS24t16
	F17 []wkCS24t17
	F18 []wkCS24t18
	F19 []wkCS24t19
	F20 []wkCS24t20
	F21 []wkCS24t21
	F22 []wkCS24t22
	F23 []wkCS24t23
}
type wkCS24t18 struct {
	F0  []wkCS24t0
	F1  []wkCS24t1
	F2  []wkCS24t2
	F3  []wkCS24t3
	F4  []wkCS24t4
	F5  []wkCS24t5
	F6  []wkCS24t6
	F7  []wkCS24t7
	F8  []wkCS24t8
	F9  []wkCS24t9
	F10 []wkCS24t10
	F11 []wkCS24t11
	F12 []wkCS24t12
	F13 []wkCS24t13
	F14 []wkCS24t14
	F15 []wkCS24t15
	F16 []wkCS24t16
	F17 []wkCS24t17
	F18 []wkCS24t18
	F19 []wkCS24t19
	F20 []wkCS24t20
	F21 []wkCS24t21
	F22 []wkCS24t22
	F23 []wkCS24t23
}
type wkCS24t19 struct {
	F0  []wkCS24t0
	F1  []wkCS24t1
	F2  []wkCS24t2
	F3  []wkCS24t3
	F4  []wkCS24t4
	F5  []wkCS24t5
	F6  []wkCS24t6
	F7  []wkCS24t7
	F8  []wkCS24t8
	F9  []wkCS24t9
	F10 []wkCS24t10
	F11 []wkCS24t11
	F12 []wkCS24t12
	F13 []wkCS24t13
	F14 []wkCS24t14
	F15 []wkCS24t15
	F16 []wkCS24t16
	F17 []wkCS24t17
	F18 []wkCS24t18
	F19 []wkCS24t19
	F20 []wkCS24t20
	F21 []wkCS24t21
	F22 []wkCS24t22
	F23 []wkCS24t23
}
type wkCS24t20 struct {
	F0  []wkCS24t0
	F1  []wkCS24t1
	F2  []wkCS24t2
	F3  []wkCS24t3
	F4  []wkCS24t4
	F5  []wkCS24t5
	F6  []wkCS24t6
	F7  []wkCS24t7
	F8  []wkCS24t8
	F9  []wkCS24t9
	F10 []wkCS24t10
	F11 []wkCS24t11
	F12 []wkCS24t12
	F13 []wkCS24t13
	F14 []wkCS24t14
	F15 []wkCS24t15
	F16 []wkCS24t16
	F17 []wkCS24t17
	F18 []wkCS24t18
	F19 []wkCS24t19
	F20 []wkCS24t20
	F21 []wkCS24t21
	F22 []wkCS24t22
	F23 []wkCS24t23
}
type wkCS24t21 struct {
	F0  []wkCS24t0
	F1  []wkCS24t1
	F2  []wkCS24t2
	F3  []wkCS24t3
	F4  []wkCS24t4
	F5  []wkCS24t5
	F6  []wkCS24t6
	F7  []wkCS24t7
	F8  []wkCS24t8
	F9  []wkCS24t9
	F10 []wkCS24t10
	F11 []wkCS24t11
	F12 []wkCS24t12
	F13 []wkCS24t13
	F14 []wkCS24t14
	F15 []wkCS24t15
	F16 []wkCS24t16
	F17 []wkCS24t17
	F18 []wkCS24t18
	F19 []wkCS24t19
	F20 []wkCS24t20
	F21 []wkCS24t21
	F22 []wkCS24t22
	F23 []wkCS24t23
}
type wkCS24t22 struct {
	F0  []wkCS24t0
	F1  []wkCS24t1
	F2  []wkCS24t2
	F3  []wkCS24t3
	F4  []wkCS24t4
	F5  []wkCS24t5
	F6  []wkCS24t6
	F7  []wkCS24t7
	F8  []wkCS24t8
	F9  []wkCS24t9
	F10 []wkCS24t10
	F11 []wkCS24t11
	F12 []wkCS24t12
	F13 []wkCS24t13
	F14 []wkCS24t14
	F15 []wkCS24t15
	F16 []wkCS24t16
	F17 []wkCS24t17
	F18 []wkCS24t18
	F19 []wkCS24t19
	F20 []wkCS24t20
	F21 []wkCS24t21
	F22 []wkCS24t22
	F23 []wkCS24t23
}
type wkCS24t23 struct {
	F0  []wkCS24t0
	F1  []wkCS24t1
	F2  []wkCS24t2
	F3  []wkCS24t3
	F4  []wkCS24t4
	F5  []wkCS24t5
	F6  []wkCS24t6
	F7  []wkCS24t7
	F8  []wkCS24t8
	F9  []wkCS24t9
	F10 []wkCS24t10
	F11 []wkCS24t11
	F12 []wkCS24t12
	F13 []wkCS24t13
	F14 []wkCS24t14
	F15 []wkCS24t15
	F16 []wkCS24t16
	F17 []wkCS24t17
	F18 []wkCS24t18
	F19 []wkCS24t19
	F20 []wkCS24t20
	F21 []wkCS24t21
	F22 []wkCS24t22
	F23 []wkCS24t23
}
type wkDS4t0 struct{ A int }
type wkDS4t1 struct {
	A []wkDS4t0
	B []wkDS4t0
	C []wkDS4t0
}
type wkDS4t2 struct {
	A []wkDS4t1
	B []wkDS4t1
	C []wkDS4t1
}
type wkDS4t3 struct {
	A []wkDS4t2
	B []wkDS4t2
	C []wkDS4t2
}
type wkDS4t4 struct {
	A []wkDS4t3
	B []wkDS4t3
	C []wkDS4t3
}
type wkDS8t0 struct{ A int }
type wkDS8t1 struct {
	A []wkDS8t0
	B []wkDS8t0
	C []wkDS8t0
}
type wkDS8t2 struct {
	A []wkDS8t1
	B []wkDS8t1
	C []wkDS8t1
}
type wkDS8t3 struct {
	A []wkDS8t2
	B []wkDS8t2
	C []wkDS8t2
}
type wkDS8t4 struct {
	A []wkDS8t3
	B []wkDS8t3
	C []wkDS8t3
}
type wkDS8t5 struct {
	A []wkDS8t4
	B []wkDS8t4
	C []wkDS8t4
}
type wkDS8t6 struct {
	A []wkDS8t5
	B []wkDS8t5
	C []wkDS8t5
}
type wkDS8t7 struct {
	A []wkDS8t6
	B []wkDS8t6
	C []wkDS8t6
}
type wkDS8t8 struct {
	A []wkDS8t7
	B []wkDS8t7
	C []wkDS8t7
}
type wkDS11t0 struct{ A int }
type wkDS11t1 struct {
	A []wkDS11t0
	B []wkDS11t0
	C []wkDS11t0
}
type wkDS11t2 struct {
	A []wkDS11t1
	B []wkDS11t1
	C []wkDS11t1
}
type wkDS11t3 struct {
	A []wkDS11t2
	B []wkDS11t2
	C []wkDS11t2
}
type wkDS11t4 struct {
	A []wkDS11t3
	B []wkDS11t3
	C []wkDS11t3
}
type wkDS11t5 struct {
	A []wkDS11t4
	B []wkDS11t4
	C []wkDS11t4
}
type wkDS11t6 struct {
	A []wkDS11t5
	B []wkDS11t5
	C []wkDS11t5
}
type wkDS11t7 struct {
	A []wkDS11t6
	B []wkDS11t6
	C []wkDS11t6
}
type wkDS11t8 struct {
	A []wkDS11t7
	B []wkDS11t7
	C []wkDS11t7
}
type wkDS11t9 struct {
	A []wkDS11t8
	B []wkDS11t8
	C []wkDS11t8
}
type wkDS11t10 struct {
	A []wkDS11t9
	B []wkDS11t9
	C []wkDS11t9
}
type wkDS11t11 struct {
	A []wkDS11t10
	B []wkDS11t10
	C []wkDS11t10
}
type wkDS13t0 struct{ A int }
type wkDS13t1 struct {
	A []wkDS13t0
	B []wkDS13t0
	C []wkDS13t0
}
type wkDS13t2 struct {
	A []wkDS13t1
	B []wkDS13t1
	C []wkDS13t1
}
type wkDS13t3 struct {
	A []wkDS13t2
	B []wkDS13t2
	C []wkDS13t2
}
type wkDS13t4 struct {
	A []wkDS13t3
	B []wkDS13t3
	C []wkDS13t3
}
type wkDS13t5 struct {
	A []wkDS13t4
	B []wkDS13t4
	C []wkDS13t4
}
type wkDS13t6 struct {
	A []wkDS13t5
	B []wkDS13t5
	C []wkDS13t5
}
type wkDS13t7 struct {
	A []wkDS13t6
	B []wkDS13t6
	C []wkDS13t6
}
type wkDS13t8 struct {
	A []wkDS13t7
	B []wkDS13t7
	C []wkDS13t7
}
type wkDS13t9 struct {
	A []wkDS13t8
	B []wkDS13t8
	C []wkDS13t8
}
type wkDS13t10 struct {
	A []wkDS13t9
	B []wkDS13t9
	C []wkDS13t9
}
type wkDS13t11 struct {
	A []wkDS13t10
	B []wkDS13t10
	C []wkDS13t10
}
type wkDS13t12 struct {
	A []wkDS13t11
	B []wkDS13t11
	C []wkDS13t11
}
type wkDS13t13 struct {
	A []wkDS13t12
	B []wkDS13t12
	C []wkDS13t12
}
type wkDS16t0 struct{ A int }
type wkDS16t1 struct {
	A []wkDS16t0
	B []wkDS16t0
	C []wkDS16t0
}
type wkDS16t2 struct {
	A []wkDS16t1
	B []wkDS16t1
	C []wkDS16t1
}
type wkDS16t3 struct {
	A []wkDS16t2
	B []wkDS16t2
	C []wkDS16t2
}
type wkDS16t4 struct {
	A []wkDS16t3
	B []wkDS16t3
	C []wkDS16t3
}
type wkDS16t5 struct {
	A []wkDS16t4
	B []wkDS16t4
	C []wkDS16t4
}
type wkDS16t6 struct {
	A []wkDS16t5
	B []wkDS16t5
	C []wkDS16t5
}
type wkDS16t7 struct {
	A []wkDS16t6
	B []wkDS16t6
	C []wkDS16t6
}
type wkDS16t8 struct {
	A []wkDS16t7
	B []wkDS16t7
	C []wkDS16t7
}
type wkDS16t9 struct {
	A []wkDS16t8
	B []wkDS16t8
	C []wkDS16t8
}
type wkDS16t10 struct {
	A []wkDS16t9
	B []wkDS16t9
	C []wkDS16t9
}
type wkDS16t11 struct {
	A []wkDS16t10
	B []wkDS16t10
	C []wkDS16t10
}
type wkDS16t12 struct {
	A []wkDS16t11
	B []wkDS16t11
	C []wkDS16t11
}
type wkDS16t13 struct {
	A []wkDS16t12
	B []wkDS16t12
	C []wkDS16t12
}
type wkDS16t14 struct {
	A []wkDS16t13
	B []wkDS16t13
	C []wkDS16t13
}
type wkDS16t15 struct {
	A []wkDS16t14
	B []wkDS16t14
	C []wkDS16t14
}
type wkDS16t16 struct {
	A []wkDS16t15
	B []wkDS16t15
	C []wkDS16t15
}
type wkDS40t0 struct{ A int }
type wkDS40t1 struct {
	A []wkDS40t0
	B []wkDS40t0
	C []wkDS40t0
}
type wkDS40t2 struct {
	A []wkDS40t1
	B []wkDS40t1
	C []wkDS40t1
}
type wkDS40t3 struct {
	A []wkDS40t2
	B []wkDS40t2
	C []wkDS40t2
}
type wkDS40t4 struct {
	A []wkDS40t3
	B []wkDS40t3
	C []wkDS40t3
}
type wkDS40t5 struct {
	A []wkDS40t4
	B []wkDS40t4
	C []wkDS40t4
}
type wkDS40t6 struct {
	A []wkDS40t5
	B []wkDS40t5
	C []wkDS40t5
}
type wkDS40t7 struct {
	A []wkDS40t6
	B []wkDS40t6
	C []wkDS40t6
}
type wkDS40t8 struct {
	A []wkDS40t7
	B []wkDS40t7
	C []wkDS40t7
}
type wkDS40t9 struct {
	A []wkDS40t8
	B []wkDS40t8
	C []wkDS40t8
}
type wkDS40t10 struct {
	A []wkDS40t9
	B []wkDS40t9
	C []wkDS40t9
}
type wkDS40t11 struct {
	A []wkDS40t10
	B []wkDS40t10
	C []wkDS40t10
}
type wkDS40t12 struct {
	A []wkDS40t11
	B []wkDS40t11
	C []wkDS40t11
}
type wkDS40t13 struct {
	A []wkDS40t12
	B []wkDS40t12
	C []wkDS40t12
}
type wkDS40t14 struct {
	A []wkDS40t13
	B []wkDS40t13
	C []wkDS40t13
}
type wkDS40t15 struct {
	A []wkDS40t14
	B []wkDS40t14
	C []wkDS40t14
}
type wkDS40t16 struct {
	A []wkDS40t15
	B []wkDS40t15
	C []wkDS40t15
}
type wkDS40t17 struct {
	A []wkDS40t16
	B []wkDS40t16
	C []wkDS40t16
}
type wkDS40t18 struct {
	A []wkDS40t17
	B []wkDS40t17
	C []wkDS40t17
}
type wkDS40t19 struct {
	A []wkDS40t18
	B []wkDS40t18
	C []wkDS40t18
}
type wkDS40t20 struct {
	A []wkDS40t19
	B []wkDS40t19
	C []wkDS40t19
}
type wkDS40t21 struct {
	A []wkDS40t20
	B []wkDS40t20
	C []wkDS40t20
}
type wkDS40t22 struct {
	A []wkDS40t21
	B []wkDS40t21
	C []wkDS40t21
}
type wkDS40t23 struct {
	A []wkDS40t22
	B []wkDS40t22
	C []wkDS40t22
}
type wkDS40t24 struct {
	A []wkDS40t23
	B []wkDS40t23
	C []wkDS40t23
}
type wkDS40t25 struct {
	A []wkDS40t24
	B []wkDS40t24
	C []wkDS40t24
}
type wkDS40t26 struct {
	A []wkDS40t25
	B []wkDS40t25
	C []wkDS40t25
}
type wkDS40t27 struct {
	A []wkDS40t26
	B []wkDS40t26
	C []wkDS40t26
}
type wkDS40t28 struct {
	A []wkDS40t27
	B []wkDS40t27
	C []wkDS40t27
}
type wkDS40t29 struct {
	A []wkDS40t28
	B []wkDS40t28
	C []wkDS40t28
}
type wkDS40t30 struct {
	A []wkDS40t29
	B []wkDS40t29
	C []wkDS40t29
}
type wkDS40t31 struct {
	A []wkDS40t30
	B []wkDS40t30
	C []wkDS40t30
}
type wkDS40t32 struct {
	A []wkDS40t31
	B []wkDS40t31
	C []wkDS40t31
}
type wkDS40t33 struct {
	A []wkDS40t32
	B []wkDS40t32
	C []wkDS40t32
}
type wkDS40t34 struct {
	A []wkDS40t33
	B []wkDS40t33
	C []wkDS40t33
}
type wkDS40t35 struct {
	A []wkDS40t34
	B []wkDS40t34
	C []wkDS40t34
}
type wkDS40t36 struct {
	A []wkDS40t35
	B []wkDS40t35
	C []wkDS40t35
}
type wkDS40t37 struct {
	A []wkDS40t36
	B []wkDS40t36
	C []wkDS40t36
}
type wkDS40t38 struct {
	A []wkDS40t37
	B []wkDS40t37
	C []wkDS40t37
}
type wkDS40t39 struct {
	A []wkDS40t38
	B []wkDS40t38
	C []wkDS40t38
}
type wkDS40t40 struct {
	A []wkDS40t39
	B []wkDS40t39
	C []wkDS40t39
}
type wkOS8t0 struct {
	F1 []wkOS8t1
	F2 []wkOS8t2
	F3 []wkOS8t3
	F4 []wkOS8t4
	F5 []wkOS8t5
	F6 []wkOS8t6
	F7 []wkOS8t7
}
type wkOS8t1 struct {
	F2 []wkOS8t2
	F3 []wkOS8t3
	F4 []wkOS8t4
	F5 []wkOS8t5
	F6 []wkOS8t6
	F7 []wkOS8t7
}
type wkOS8t2 struct {
	F3 []wkOS8t3
	F4 []wkOS8t4
	F5 []wkOS8t5
	F6 []wkOS8t6
	F7 []wkOS8t7
}
type wkOS8t3 struct {
	F4 []wkOS8t4
	F5 []wkOS8t5
	F6 []wkOS8t6
	F7 []wkOS8t7
}
type wkOS8t4 struct {
	F5 []wkOS8t5
	F6 []wkOS8t6
	F7 []wkOS8t7
}
type wkOS8t5 struct {
	F6 []wkOS8t6
	F7 []wkOS8t7
}
type wkOS8t6 struct{ F7 []wkOS8t7 }
type wkOS8t7 struct{ F0 []wkOS8t0 }
type wkOS16t0 struct {
	F1  []wkOS16t1
	F2  []wkOS16t2
	F3  []wkOS16t3
	F4  []wkOS16t4
	F5  []wkOS16t5
	F6  []wkOS16t6
	F7  []wkOS16t7
	F8  []wkOS16t8
	F9  []wkOS16t9
	F10 []wkOS16t10
	F11 []wkOS16t11
	F12 []wkOS16t12
	F13 []wkOS16t13
	F14 []wkOS16t14
	F15 []wkOS16t15
}
type wkOS16t1 struct {
	F2  []wkOS16t2
	F3  []wkOS16t3
	F4  []wkOS16t4
	F5  []wkOS16t5
	F6  []wkOS16t6
	F7  []wkOS16t7
	F8  []wkOS16t8
	F9  []wkOS16t9
	F10 []wkOS16t10
	F11 []wkOS16t11
	F12 []wkOS16t12
	F13 []wkOS16t13
	F14 []wkOS16t14
	F15 []wkOS16t15
}
type wkOS16t2 struct {
	F3  []wkOS16t3
	F4  []wkOS16t4
	F5  []wkOS16t5
	F6  []wkOS16t6
	F7  []wkOS16t7
	F8  []wkOS16t8
	F9  []wkOS16t9
	F10 []wkOS16t10
	F11 []wkOS16t11
	F12 []wkOS16t12
	F13 []wkOS16t13
	F14 []wkOS16t14
	F15 []wkOS16t15
}
type wkOS16t3 struct {
	F4  []wkOS16t4
	F5  []wkOS16t5
	F6  []wkOS16t6
	F7  []wkOS16t7
	F8  []wkOS16t8
	F9  []wkOS16t9
	F10 []wkOS16t10
	F11 []wkOS16t11
	F12 []wkOS16t12
	F13 []wkOS16t13
	F14 []wkOS16t14
	F15 []wkOS16t15
}
type wkOS16t4 struct {
	F5  []wkOS16t5
	F6  []wkOS16t6
	F7  []wkOS16t7
	F8  []wkOS16t8
	F9  []wkOS16t9
	F10 []wkOS16t10
	F11 []wkOS16t11
	F12 []wkOS16t12
	F13 []wkOS16t13
	F14 []wkOS16t14
	F15 []wkOS16t15
}
type wkOS16t5 struct {
	F6  []wkOS16t6
	F7  []wkOS16t7
	F8  []wkOS16t8
	F9  []wkOS16t9
	F10 []wkOS16t10
	F11 []wkOS16t11
	F12 []wkOS16t12
	F13 []wkOS16t13
	F14 []wkOS16t14
	F15 []wkOS16t15
}
type wkOS16t6 struct {
	F7  []wkOS16t7
	F8  []wkOS16t8
	F9  []wkOS16t9
	F10 []wkOS16t10
	F11 []wkOS16t11
	F12 []wkOS16t12
	F13 []wkOS16t13
	F14 []wkOS16t14
	F15 []wkOS16t15
}
type wkOS16t7 struct {
	F8  []wkOS16t8
	F9  []wkOS16t9
	F10 []wkOS16t10
	F11 []wkOS16t11
	F12 []wkOS16t12
	F13 []wkOS16t13
	F14 []wkOS16t14
	F15 []wkOS16t15
}
type wkOS16t8 struct {
	F9  []wkOS16t9
	F10 []wkOS16t10
	F11 []wkOS16t11
	F12 []wkOS16t12
	F13 []wkOS16t13
	F14 []wkOS16t14
	F15 []wkOS16t15
}
type wkOS16t9 struct {
	F10 []wkOS16t10
	F11 []wkOS16t11
	F12 []wkOS16t12
	F13 []wkOS16t13
	F14 []wkOS16t14
	F15 []wkOS16t15
}
type wkOS16t10 struct {
	F11 []wkOS16t11
	F12 []wkOS16t12
	F13 []wkOS16t13
	F14 []wkOS16t14
	F15 []wkOS16t15
}
type wkOS16t11 struct {
	F12 []wkOS16t12
	F13 []wkOS16t13
	F14 []wkOS16t14
	F15 []wkOS16t15
}
type wkOS16t12 struct {
	F13 []wkOS16t13
	F14 []wkOS16t14
	F15 []wkOS16t15
}
type wkOS16t13 struct {
	F14 []wkOS16t14
	F15 []wkOS16t15
}
type wkOS16t14 struct{ F15 []wkOS16t15 }
type wkOS16t15 struct{ F0 []wkOS16t0 }
type wkOS20t0 struct {
	F1  []wkOS20t1
	F2  []wkOS20t2
	F3  []wkOS20t3
	F4  []wkOS20t4
	F5  []wkOS20t5
	F6  []wkOS20t6
	F7  []wkOS20t7
	F8  []wkOS20t8
	F9  []wkOS20t9
	F10 []wkOS20t10
	F11 []wkOS20t11
	F12 []wkOS20t12
	F13 []wkOS20t13
	F14 []wkOS20t14
	F15 []wkOS20t15
	F16 []wkOS20t16
	F17 []wkOS20t17
	F18 []wkOS20t18
	F19 []wkOS20t19
}
type wkOS20t1 struct {
	F2  []wkOS20t2
	F3  []wkOS20t3
	F4  []wkOS20t4
	F5  []wkOS20t5
	F6  []wkOS20t6
	F7  []wkOS20t7
	F8  []wkOS20t8
	F9  []wkOS20t9
	F10 []wkOS20t10
	F11 []wkOS20t11
	F12 []wkOS20t12
	F13 []wkOS20t13
	F14 []wkOS20t14
	F15 []wkOS20t15
	F16 []wkOS20t16
	F17 []wkOS20t17
	F18 []wkOS20t18
	F19 []wkOS20t19
}
type wkOS20t2 struct {
	F3  []wkOS20t3
	F4  []wkOS20t4
	F5  []wkOS20t5
	F6  []wkOS20t6
	F7  []wkOS20t7
	F8  []wkOS20t8
	F9  []wkOS20t9
	F10 []wkOS20t10
	F11 []wkOS20t11
	F12 []wkOS20t12
	F13 []wkOS20t13
	F14 []wkOS20t14
	F15 []wkOS20t15
	F16 []wkOS20t16
	F17 []wkOS20t17
	F18 []wkOS20t18
	F19 []wkOS20t19
}
type wkOS20t3 struct {
	F4  []wkOS20t4
	F5  []wkOS20t5
	F6  []wkOS20t6
	F7  []wkOS20t7
	F8  []wkOS20t8
	F9  []wkOS20t9
	F10 []wkOS20t10
	F11 []wkOS20t11
	F12 []wkOS20t12
	F13 []wkOS20t13
	F14 []wkOS20t14
	F15 []wkOS20t15
	F16 []wkOS20t16
	F17 []wkOS20t17
	F18 []wkOS20t18
	F19 []wkOS20t19
}
type wkOS20t4 struct {
	F5  []wkOS20t5
	F6  []wkOS20t6
	F7  []wkOS20t7
	F8  []wkOS20t8
	F9  []wkOS20t9
	F10 []wkOS20t10
	F11 []wkOS20t11
	F12 []wkOS20t12
	F13 []wkOS20t13
	F14 []wkOS20t14
	F15 []wkOS20t15
	F16 []wkOS20t16
	F17 []wkOS20t17
	F18 []wkOS20t18
	F19 []wkOS20t19
}
type wkOS20t5 struct {
	F6  []wkOS20t6
	F7  []wkOS20t7
	F8  []wkOS20t8
	F9  []wkOS20t9
	F10 []wkOS20t10
	F11 []wkOS20t11
	F12 []wkOS20t12
	F13 []wkOS20t13
	F14 []wkOS20t14
	F15 []wkOS20t15
	F16 []wkOS20t16
	F17 []wkOS20t17
	F18 []wkOS20t18
	F19 []wkOS20t19
}
type wkOS20t6 struct {
	F7  []wkOS20t7
	F8  []wkOS20t8
	F9  []wkOS20t9
	F10 []wkOS20t10
	F11 []wkOS20t11
	F12 []wkOS20t12
	F13 []wkOS20t13
	F14 []wkOS20t14
	F15 []wkOS20t15
	F16 []wkOS20t16
	F17 []wkOS20t17
	F18 []wkOS20t18
	F19 []wkOS20t19
}
type wkOS20t7 struct {
	F8  []wkOS20t8
	F9  []wkOS20t9
	F10 []wkOS20t10
	F11 []wkOS20t11
	F12 []wkOS20t12
	F13 []wkOS20t13
	F14 []wkOS20t14
	F15 []wkOS20t15
	F16 []wkOS20t16
	F17 []wkOS20t17
	F18 []wkOS20t18
	F19 []wkOS20t19
}
type wkOS20t8 struct {
	F9  []wkOS20t9
	F10 []wkOS20t10
	F11 []wkOS20t11
	F12 []wkOS20t12
	F13 []wkOS20t13
	F14 []wkOS20t14
	F15 []wkOS20t15
	F16 []wkOS20t16
	F17 []wkOS20t17
	F18 []wkOS20t18
	F19 []wkOS20t19
}
type wkOS20t9 struct {
	F10 []wkOS20t10
	F11 []wkOS20t11
	F12 []wkOS20t12
	F13 []wkOS20t13
	F14 []wkOS20t14
	F15 []wkOS20t15
	F16 []wkOS20t16
	F17 []wkOS20t17
	F18 []wkOS20t18
	F19 []wkOS20t19
}
type wkOS20t10 struct {
	F11 []wkOS20t11
	F12 []wkOS20t12
	F13 []wkOS20t13
	F14 []wkOS20t14
	F15 []wkOS20t15
	F16 []wkOS20t16
	F17 []wkOS20t17
	F18 []wkOS20t18
	F19 []wkOS20t19
}
type wkOS20t11 struct {
	F12 []wkOS20t12
	F13 []wkOS20t13
	F14 []wkOS20t14
	F15 []wkOS20t15
	F16 []wkOS20t16
	F17 []wkOS20t17
	F18 []wkOS20t18
	F19 []wkOS20t19
}
type wkOS20t12 struct {
	F13 []wkOS20t13
	F14 []wkOS20t14
	F15 []wkOS20t15
	F16 []wkOS20t16
	F17 []wkOS20t17
	F18 []wkOS20t18
	F19 []wkOS20t19
}
type wkOS20t13 struct {
	F14 []wkOS20t14
	F15 []wkOS20t15
	F16 []wkOS20t16
	F17 []wkOS20t17
	F18 []wkOS20t18
	F19 []wkOS20t19
}
type wkOS20t14 struct {
	F15 []wkOS20t15
	F16 []wkOS20t16
	F17 []wkOS20t17
	F18 []wkOS20t18
	F19 []wkOS20t19
}
type wkOS20t15 struct {
	F16 []wkOS20t16
	F17 []wkOS20t17
	F18 []wkOS20t18
	F19 []wkOS20t19
}
type wkOS20t16 struct {
	F17 []wkOS20t17
	F18 []wkOS20t18
	F19 []wkOS20t19
}
type wkOS20t17 struct {
	F18 []wkOS20t18
	F19 []wkOS20t19
}
type wkOS20t18 struct{ F19 []wkOS20t19 }
type wkOS20t19 struct{ F0 []wkOS20t0 }
type wkOS24t0 struct {
	F1  []wkOS24t1
	F2  []wkOS24t2
	F3  []wkOS24t3
	F4  []wkOS24t4
	F5  []wkOS24t5
	F6  []wkOS24t6
	F7  []wkOS24t7
	F8  []wkOS24t8
	F9  []wkOS24t9
	F10 []wkOS24t10
	F11 []wkOS24t11
	F12 []wkOS24t12
	F13 []wkOS24t13
	F14 []wkOS24t14
	F15 []wkOS24t15
	F16 []wkOS24t16
	F17 []wkOS24t17
	F18 []wkOS24t18
	F19 []wkOS24t19
	F20 []wkOS24t20
	F21 []wkOS24t21
	F22 []wkOS24t22
	F23 []wkOS24t23
}
type wkOS24t1 struct {
	F2  []wkOS24t2
	F3  []wkOS24t3
	F4  []wkOS24t4
	F5  []wkOS24t5
	F6  []wkOS24t6
	F7  []wkOS24t7
	F8  []wkOS24t8
	F9  []wkOS24t9
	F10 []wkOS24t10
	F11 []wkOS24t11
	F12 []wkOS24t12
	F13 []wkOS24t13
	F14 []wkOS24t14
	F15 []wkOS24t15
	F16 []wkOS24t16
	F17 []wkOS24t17
	F18 []wkOS24t18
	F19 []wkOS24t19
	F20 []wkOS24t20
	F21 []wkOS24t21
	F22 []wkOS24t22
	F23 []wkOS24t23
}
type wkOS24t2 struct {
	F3  []wkOS24t3
	F4  []wkOS24t4
	F5  []wkOS24t5
	F6  []wkOS24t6
	F7  []wkOS24t7
	F8  []wkOS24t8
	F9  []wkOS24t9
	F10 []wkOS24t10
	F11 []wkOS24t11
	F12 []wkOS24t12
	F13 []wkOS24t13
	F14 []wkOS24t14
	F15 []wkOS24t15
	F16 []wkOS24t16
	F17 []wkOS24t17
	F18 []wkOS24t18
	F19 []wkOS24t19
	F20 []wkOS24t20
	F21 []wkOS24t21
	F22 []wkOS24t22
	F23 []wkOS24t23
}
type wkOS24t3 struct {
	F4  []wkOS24t4
	F5  []wkOS24t5
	F6  []wkOS24t6
	F7  []wkOS24t7
	F8  []wkOS24t8
	F9  []wkOS24t9
	F10 []wkOS24t10
	F11 []wkOS24t11
	F12 []wkOS24t12
	F13 []wkOS24t13
	F14 []wkOS24t14
	F15 []wkOS24t15
	F16 []wkOS24t16
	F17 []wkOS24t17
	F18 []wkOS24t18
	F19 []wkOS24t19
	F20 []wkOS24t20
	F21 []wkOS24t21
	F22 []wkOS24t22
	F23 []wkOS24t23
}
type wkOS24t4 struct {
	F5  []wkOS24t5
	F6  []wkOS24t6
	F7  []wkOS24t7
	F8  []wkOS24t8
	F9  []wkOS24t9
	F10 []wkOS24t10
	F11 []wkOS24t11
	F12 []wkOS24t12
	F13 []wkOS24t13
	F14 []wkOS24t14
	F15 []wkOS24t15
	F16 []wkOS24t16
	F17 []wkOS24t17
	F18 []wkOS24t18
	F19 []wkOS24t19
	F20 []wkOS24t20
	F21 []wkOS24t21
	F22 []wkOS24t22
	F23 []wkOS24t23
}
type wkOS24t5 struct {
	F6  []wkOS24t6
	F7  []wkOS24t7
	F8  []wkOS24t8
	F9  []wkOS24t9
	F10 []wkOS24t10
	F11 []wkOS24t11
	F12 []wkOS24t12
	F13 []wkOS24t13
	F14 []wkOS24t14
	F15 []wkOS24t15
	F16 []wkOS24t16
	F17 []wkOS24t17
	F18 []wkOS24t18
	F19 []wkOS24t19
	F20 []wkOS24t20
	F21 []wkOS24t21
	F22 []wkOS24t22
	F23 []wkOS24t23
}
type wkOS24t6 struct {
	F7  []wkOS24t7
	F8  []wkOS24t8
	F9  []wkOS24t9
	F10 []wkOS24t10
	F11 []wkOS24t11
	F12 []wkOS24t12
	F13 []wkOS24t13
	F14 []wkOS24t14
	F15 []wkOS24t15
	F16 []wkOS24t16
	F17 []wkOS24t17
	F18 []wkOS24t18
	F19 []wkOS24t19
	F20 []wkOS24t20
	F21 []wkOS24t21
	F22 []wkOS24t22
	F23 []wkOS24t23
}
type wkOS24t7 struct {
	F8  []wkOS24t8
	F9  []wkOS24t9
	F10 []wkOS24t10
	F11 []wkOS24t11
	F12 []wkOS24t12
	F13 []wkOS24t13
	F14 []wkOS24t14
	F15 []wkOS24t15
	F16 []wkOS24t16
	F17 []wkOS24t17
	F18 []wkOS24t18
	F19 []wkOS24t19
	F20 []wkOS24t20
	F21 []wkOS24t21
	F22 []wkOS24t22
	F23 []wkOS24t23
}
type wkOS24t8 struct {
	F9  []wkOS24t9
	F10 []wkOS24t10
	F11 []wkOS24t11
	F12 []wkOS24t12
	F13 []wkOS24t13
	F14 []wkOS24t14
	F15 []wkOS24t15
	F16 []wkOS24t16
	F17 []wkOS24t17
	F18 []wkOS24t18
	F19 []wkOS24t19
	F20 []wkOS24t20
	F21 []wkOS24t21
	F22 []wkOS24t22
	F23 []wkOS24t23
}
type wkOS24t9 struct {
	F10 []wkOS24t10
	F11 []wkOS24t11
	F12 []wkOS24t12
	F13 []wkOS24t13
	F14 []wkOS24t14
	F15 []wkOS24t15
	F16 []wkOS24t16
	F17 []wkOS24t17
	F18 []wkOS24t18
	F19 []wkOS24t19
	F20 []wkOS24t20
	F21 []wkOS24t21
	F22 []wkOS24t22
	F23 []wkOS24t23
}
type wkOS24t10 struct {
	F11 []wkOS24t11
	F12 []wkOS24t12
	F13 []wkOS24t13
	F14 []wkOS24t14
	F15 []wkOS24t15
	F16 []wkOS24t16
	F17 []wkOS24t17
	F18 []wkOS24t18
	F19 []wkOS24t19
	F20 []wkOS24t20
	F21 []wkOS24t21
	F22 []wkOS24t22
	F23 []wkOS24t23
}
type wkOS24t11 struct {
	F12 []wkOS24t12
	F13 []wkOS24t13
	F14 []wkOS24t14
	F15 []wkOS24t15
	F16 []wkOS24t16
	F17 []wkOS24t17
	F18 []wkOS24t18
	F19 []wkOS24t19
	F20 []wkOS24t20
	F21 []wkOS24t21
	F22 []wkOS24t22
	F23 []wkOS24t23
}
type wkOS24t12 struct {
	F13 []wkOS24t13
	F14 []wkOS24t14
	F15 []wkOS24t15
	F16 []wkOS24t16
	F17 []wkOS24t17
	F18 []wkOS24t18
	F19 []wkOS24t19
	F20 []wkOS24t20
	F21 []wkOS24t21
	F22 []wkOS24t22
	F23 []wkOS24t23
}
type wkOS24t13 struct {
	F14 []wkOS24t14
	F15 []wkOS24t15
	F16 []wkOS24t16
	F17 []wkOS24t17
	F18 []wkOS24t18
	F19 []wkOS24t19
	F20 []wkOS24t20
	F21 []wkOS24t21
	F22 []wkOS24t22
	F23 []wkOS24t23
}
type wkOS24t14 struct {
	F15 []wkOS24t15
	F16 []wkOS24t16
	F17 []wkOS24t17
	F18 []wkOS24t18
	F19 []wkOS24t19
	F20 []wkOS24t20
	F21 []wkOS24t21
	F22 []wkOS24t22
	F23 []wkOS24t23
}
type wkOS24t15 struct {
	F16 []wkOS24t16
	F17 []wkOS24t17
	F18 []wkOS24t18
	F19 []wkOS24t19
	F20 []wkOS24t20
	F21 []wkOS24t21
	F22 []wkOS24t22
	F23 []wkOS24t23
}
type wkOS24t16 struct {
	F17 []wkOS24t17
	F18 []wkOS24t18
	F19 []wkOS24t19
	F20 []wkOS24t20
	F21 []wkOS24t21
	F22 []wkOS24t22
	F23 []wkOS24t23
}
type wkOS24t17 struct {
	F18 []wkOS24t18
	F19 []wkOS24t19
	F20 []wkOS24t20
	F21 []wkOS24t21
	F22 []wkOS24t22
	F23 []wkOS24t23
}
type wkOS24t18 struct {
	F19 []wkOS24t19
	F20 []wkOS24t20
	F21 []wkOS24t21
	F22 []wkOS24t22
	F23 []wkOS24t23
}
type wkOS24t19 struct {
	F20 []wkOS24t20
	F21 []wkOS24t21
	F22 []wkOS24t22
	F23 []wkOS24t23
}
type wkOS24t20 struct {
	F21 []wkOS24t21
	F22 []wkOS24t22
	F23 []wkOS24t23
}
type wkOS24t21 struct {
	F22 []wkOS24t22
	F23 []wkOS24t23
}
type wkOS24t22 struct{ F23 []wkOS24t23 }
type wkOS24t23 struct{ F0 []wkOS24t0 }
type wkOS40t0 struct {
	F1  []wkOS40t1
	F2  []wkOS40t2
	F3  []wkOS40t3
	F4  []wkOS40t4
	F5  []wkOS40t5
	F6  []wkOS40t6
	F7  []wkOS40t7
	F8  []wkOS40t8
	F9  []wkOS40t9
	F10 []wkOS40t10
	F11 []wkOS40t11
	F12 []wkOS40t12
	F13 []wkOS40t13
	F14 []wkOS40t14
	F15 []wkOS40t15
	F16 []wkOS40t16
	F17 []wkOS40t17
	F18 []wkOS40t18
	F19 []wkOS40t19
	F20 []wkOS40t20
	F21 []wkOS40t21
	F22 []wkOS40t22
	F23 []wkOS40t23
	F24 []wkOS40t24
	F25 []wkOS40t25
	F26 []wkOS40t26
	F27 []wkOS40t27
	F28 []wkOS40t28
	F29 []wkOS40t29
	F30 []wkOS40t30
	F31 []wkOS40t31
	F32 []wkOS40t32
	F33 []wkOS40t33
	F34 []wkOS40t34
	F35 []wkOS40t35
	F36 []wkOS40t36
	F37 []wkOS40t37
	F38 []wkOS40t38
	F39 []wkOS40t39
}
type wkOS40t1 struct {
	F2  []wkOS40t2
	F3  []wkOS40t3
	F4  []wkOS40t4
	F5  []wkOS40t5
	F6  []wkOS40t6
	F7  []wkOS40t7
	F8  []wkOS40t8
	F9  []wkOS40t9
	F10 []wkOS40t10
	F11 []wkOS40t11
	F12 []wkOS40t12
	F13 []wkOS40t13
	F14 []wkOS40t14
	F15 []wkOS40t15
	F16 []wkOS40t16
	F17 []wkOS40t17
	F18 []wkOS40t18
	F19 []wkOS40t19
	F20 []wkOS40t20
	F21 []wkOS40t21
	F22 []wkOS40t22
	F23 []wkOS40t23
	F24 []wkOS40t24
	F25 []wkOS40t25
	F26 []wkOS40t26
	F27 []wkOS40t27
	F28 []wkOS40t28
	F29 []wkOS40t29
	F30 []wkOS40t30
	F31 []wkOS40t31
	F32 []wkOS40t32
	F33 []wkOS40t33
	F34 []wkOS40t34
	F35 []wkOS40t35
	F36 []wkOS40t36
	F37 []wkOS40t37
	F38 []wkOS40t38
	F39 []wkOS40t39
}
type wkOS40t2 struct {
	F3  []wkOS40t3
	F4  []wkOS40t4
	F5  []wkOS40t5
	F6  []wkOS40t6
	F7  []wkOS40t7
	F8  []wkOS40t8
	F9  []wkOS40t9
	F10 []wkOS40t10
	F11 []wkOS40t11
	F12 []wkOS40t12
	F13 []wkOS40t13
	F14 []wkOS40t14
	F15 []wkOS40t15
	F16 []wkOS40t16
	F17 []wkOS40t17
	F18 []wkOS40t18
	F19 []wkOS40t19
	F20 []wkOS40t20
	F21 []wkOS40t21
	F22 []wkOS40t22
	F23 []wkOS40t23
	F24 []wkOS40t24
	F25 []wkOS40t25
	F26 []wkOS40t26
	F27 []wkOS40t27
	F28 []wkOS40t28
	F29 []wkOS40t29
	F30 []wkOS40t30
	F31 []wkOS40t31
	F32 []wkOS40t32
	F33 []wkOS40t33
	F34 []wkOS40t34
	F35 []wkOS40t35
	F36 []wkOS40t36
	F37 []wkOS40t37
	F38 []wkOS40t38
	F39 []wkOS40t39
}
type wkOS40t3 struct {
	F4  []wkOS40t4
	F5  []wkOS40t5
	F6  []wkOS40t6
	F7  []wkOS40t7
	F8  []wkOS40t8
	F9  []wkOS40t9
	F10 []wkOS40t10
	F11 []wkOS40t11
	F12 []wkOS40t12
	F13 []wkOS40t13
	F14 []wkOS40t14
	F15 []wkOS40t15
	F16 []wkOS40t16
	F17 []wkOS40t17
	F18 []wkOS40t18
	F19 []wkOS40t19
	F20 []wkOS40t20
	F21 []wkOS40t21
	F22 []wkOS40t22
	F23 []wkOS40t23
	F24 []wkOS40t24
	F25 []wkOS40t25
	F26 []wkOS40t26
	F27 []wkOS40t27
	F28 []wkOS40t28
	F29 []wkOS40t29
	F30 []wkOS40t30
	F31 []wkOS40t31
	F32 []wkOS40t32
	F33 []wkOS40t33
	F34 []wkOS40t34
	F35 []wkOS40t35
	F36 []wkOS40t36
	F37 []wkOS40t37
	F38 []wkOS40t38
	F39 []wkOS40t39
}
type wkOS40t4 struct {
	F5  []wkOS40t5
	F6  []wkOS40t6
	F7  []wkOS40t7
	F8  []wkOS40t8
	F9  []wkOS40t9
	F10 []wkOS40t10
	F11 []wkOS40t11
	F12 []wkOS40t12
	F13 []wkOS40t13
	F14 []wkOS40t14
	F15 []wkOS40t15
	F16 []wkOS40t16
	F17 []wkOS40t17
	F18 []wkOS40t18
	F19 []wkOS40t19
	F20 []wkOS40t20
	F21 []wkOS40t21
	F22 []wkOS40t22
	F23 []wkOS40t23
	F24 []wkOS40t24
	F25 []wkOS40t25
	F26 []wkOS40t26
	F27 []wkOS40t27
	F28 []wkOS40t28
	F29 []wkOS40t29
	F30 []wkOS40t30
	F31 []wkOS40t31
	F32 []wkOS40t32
	F33 []wkOS40t33
	F34 []wkOS40t34
	F35 []wkOS40t35
	F36 []wkOS40t36
	F37 []wkOS40t37
	F38 []wkOS40t38
	F39 []wkOS40t39
}
type wkOS40t5 struct {
	F6  []wkOS40t6
	F7  []wkOS40t7
	F8  []wkOS40t8
	F9  []wkOS40t9
	F10 []wkOS40t10
	F11 []wkOS40t11
	F12 []wkOS40t12
	F13 []wkOS40t13
	F14 []wkOS40t14
	F15 []wkOS40t15
	F16 []wkOS40t16
	F17 []wkOS40t17
	F18 []wkOS40t18
	F19 []wkOS40t19
	F20 []wkOS40t20
	F21 []wkOS40t21
	F22 []wkOS40t22
	F23 []wkOS40t23
	F24 []wkOS40t24
	F25 []wkOS40t25
	F26 []wkOS40t26
	F27 []wkOS40t27
	F28 []wkOS40t28
	F29 []wkOS40t29
	F30 []wkOS40t30
	F31 []wkOS40t31
	F32 []wkOS40t32
	F33 []wkOS40t33
	F34 []wkOS40t34
	F35 []wkOS40t35
	F36 []wkOS40t36
	F37 []wkOS40t37
	F38 []wkOS40t38
	F39 []wkOS40t39
}
type wkOS40t6 struct {
	F7  []wkOS40t7
	F8  []wkOS40t8
	F9  []wkOS40t9
	F10 []wkOS40t10
	F11 []wkOS40t11
	F12 []wkOS40t12
	F13 []wkOS40t13
	F14 []wkOS40t14
	F15 []wkOS40t15
	F16 []wkOS40t16
	F17 []wkOS40t17
	F18 []wkOS40t18
	F19 []wkOS40t19
	F20 []wkOS40t20
	F21 []wkOS40t21
	F22 []wkOS40t22
	F23 []wkOS40t23
	F24 []wkOS40t24
	F25 []wkOS40t25
	F26 []wkOS40t26
	F27 []wkOS40t27
	F28 []wkOS40t28
	F29 []wkOS40t29
	F30 []wkOS40t30
	F31 []wkOS40t31
	F32 []wkOS40t32
	F33 []wkOS40t33
	F34 []wkOS40t34
	F35 []wkOS40t35
	F36 []wkOS40t36
	F37 []wkOS40t37
	F38 []wkOS40t38
	F39 []wkOS40t39
}
type wkOS40t7 struct {
	F8  []wkOS40t8
	F9  []wkOS40t9
	F10 []wkOS40t10
	F11 []wkOS40t11
	F12 []wkOS40t12
	F13 []wkOS40t13
	F14 []wkOS40t14
	F15 []wkOS40t15
	F16 []wkOS40t16
	F17 []wkOS40t17
	F18 []wkOS40t18
	F19 []wkOS40t19
	F20 []wkOS40t20
	F21 []wkOS40t21
	F22 []wkOS40t22
	F23 []wkOS40t23
	F24 []wkOS40t24
	F25 []wkOS40t25
	F26 []wkOS40t26
	F27 []wkOS40t27
	F28 []wkOS40t28
	F29 []wkOS40t29
	F30 []wkOS40t30
	F31 []wkOS40t31
	F32 []wkOS40t32
	F33 []wkOS40t33
	F34 []wkOS40t34
	F35 []wkOS40t35
	F36 []wkOS40t36
	F37 []wkOS40t37
	F38 []wkOS40t38
	F39 []wkOS40t39
}
type wkOS40t8 struct {
	F9  []wkOS40t9
	F10 []wkOS40t10
	F11 []wkOS40t11
	F12 []wkOS40t12
	F13 []wkOS40t13
	F14 []wkOS40t14
	F15 []wkOS40t15
	F16 []wkOS40t16
	F17 []wkOS40t17
	F18 []wkOS40t18
	F19 []wkOS40t19
	F20 []wkOS40t20
	F21 []wkOS40t21
	F22 []wkOS40t22
	F23 []wkOS40t23
	F24 []wkOS40t24
	F25 []wkOS40t25
	F26 []wkOS40t26
	F27 []wkOS40t27
	F28 []wkOS40t28
	F29 []wkOS40t29
	F30 []wkOS40t30
	F31 []wkOS40t31
	F32 []wkOS40t32
	F33 []wkOS40t33
	F34 []wkOS40t34
	F35 []wkOS40t35
	F36 []wkOS40t36
	F37 []wkOS40t37
	F38 []wkOS40t38
	F39 []wkOS40t39
}
type wkOS40t9 struct {
	F10 []wkOS40t10
	F11 []wkOS40t11
	F12 []wkOS40t12
	F13 []wkOS40t13
	F14 []wkOS40t14
	F15 []wkOS40t15
	F16 []wkOS40t16
	F17 []wkOS40t17
	F18 []wkOS40t18
	F19 []wkOS40t19
	F20 []wkOS40t20
	F21 []wkOS40t21
	F22 []wkOS40t22
	F23 []wkOS40t23
	F24 []wkOS40t24
	F25 []wkOS40t25
	F26 []wkOS40t26
	F27 []wkOS40t27
	F28 []wkOS40t28
	F29 []wkOS40t29
	F30 []wkOS40t30
	F31 []wkOS40t31
	F32 []wkOS40t32
	F33 []wkOS40t33
	F34 []wkOS40t34
	F35 []wkOS40t35
	F36 []wkOS40t36
	F37 []wkOS40t37
	F38 []wkOS40t38
	F39 []wkOS40t39
}
type wkOS40t10 struct {
	F11 []wkOS40t11
	F12 []wkOS40t12
	F13 []wkOS40t13
	F14 []wkOS40t14
	F15 []wkOS40t15
	F16 []wkOS40t16
	F17 []wkOS40t17
	F18 []wkOS40t18
	F19 []wkOS40t19
	F20 []wkOS40t20
	F21 []wkOS40t21
	F22 []wkOS40t22
	F23 []wkOS40t23
	F24 []wkOS40t24
	F25 []wkOS40t25
	F26 []wkOS40t26
	F27 []wkOS40t27
	F28 []wkOS40t28
	F29 []wkOS40t29
	F30 []wkOS40t30
	F31 []wkOS40t31
	F32 []wkOS40t32
	F33 []wkOS40t33
	F34 []wkOS40t34
	F35 []wkOS40t35
	F36 []wkOS40t36
	F37 []wkOS40t37
	F38 []wkOS40t38
	F39 []wkOS40t39
}
type wkOS40t11 struct {
	F12 []wkOS40t12
	F13 []wkOS40t13
	F14 []wkOS40t14
	F15 []wkOS40t15
	F16 []wkOS40t16
	F17 []wkOS40t17
	F18 []wkOS40t18
	F19 []wkOS40t19
	F20 []wkOS40t20
	F21 []wkOS40t21
	F22 []wkOS40t22
	F23 []wkOS40t23
	F24 []wkOS40t24
	F25 []wkOS40t25
	F26 []wkOS40t26
	F27 []wkOS40t27
	F28 []wkOS40t28
	F29 []wkOS40t29
	F30 []wkOS40t30
	F31 []wkOS40t31
	F32 []wkOS40t32
	F33 []wkOS40t33
	F34 []wkOS40t34
	F35 []wkOS40t35
	F36 []wkOS40t36
	F37 []wkOS40t37
	F38 []wkOS40t38
	F39 []wkOS40t39
}
type wkOS40t12 struct {
	F13 []wkOS40t13
	F14 []wkOS40t14
	F15 []wkOS40t15
	F16 []wkOS40t16
	F17 []wkOS40t17
	F18 []wkOS40t18
	F19 []wkOS40t19
	F20 []wkOS40t20
	F21 []wkOS40t21
	F22 []wkOS40t22
	F23 []wkOS40t23
	F24 []wkOS40t24
	F25 []wkOS40t25
	F26 []wkOS40t26
	F27 []wkOS40t27
	F28 []wkOS40t28
	F29 []wkOS40t29
	F30 []wkOS40t30
	F31 []wkOS40t31
	F32 []wkOS40t32
	F33 []wkOS40t33
	F34 []wkOS40t34
	F35 []wkOS40t35
	F36 []wkOS40t36
	F37 []wkOS40t37
	F38 []wkOS40t38
	F39 []wkOS40t39
}
type wkOS40t13 struct {
	F14 []wkOS40t14
	F15 []wkOS40t15
	F16 []wkOS40t16
	F17 []wkOS40t17
	F18 []wkOS40t18
	F19 []wkOS40t19
	F20 []wkOS40t20
	F21 []wkOS40t21
	F22 []wkOS40t22
	F23 []wkOS40t23
	F24 []wkOS40t24
	F25 []wkOS40t25
	F26 []wkOS40t26
	F27 []wkOS40t27
	F28 []wkOS40t28
	F29 []wkOS40t29
	F30 []wkOS40t30
	F31 []wkOS40t31
	F32 []wkOS40t32
	F33 []wkOS40t33
	F34 []wkOS40t34
	F35 []wkOS40t35
	F36 []wkOS40t36
	F37 []wkOS40t37
	F38 []wkOS40t38
	F39 []wkOS40t39
}
type wkOS40t14 struct {
	F15 []wkOS40t15
	F16 []wkOS40t16
	F17 []wkOS40t17
	F18 []wkOS40t18
	F19 []wkOS40t19
	F20 []wkOS40t20
	F21 []wkOS40t21
	F22 []wkOS40t22
	F23 []wkOS40t23
	F24 []wkOS40t24
	F25 []wkOS40t25
	F26 []wkOS40t26
	F27 []wkOS40t27
	F28 []wkOS40t28
	F29 []wkOS40t29
	F30 []wkOS40t30
	F31 []wkOS40t31
	F32 []wkOS40t32
	F33 []wkOS40t33
	F34 []wkOS40t34
	F35 []wkOS40t35
	F36 []wkOS40t36
	F37 []wkOS40t37
	F38 []wkOS40t38
	F39 []wkOS40t39
}
type wkOS40t15 struct {
	F16 []wkOS40t16
	F17 []wkOS40t17
	F18 []wkOS40t18
	F19 []wkOS40t19
	F20 []wkOS40t20
	F21 []wkOS40t21
	F22 []wkOS40t22
	F23 []wkOS40t23
	F24 []wkOS40t24
	F25 []wkOS40t25
	F26 []wkOS40t26
	F27 []wkOS40t27
	F28 []wkOS40t28
	F29 []wkOS40t29
	F30 []wkOS40t30
	F31 []wkOS40t31
	F32 []wkOS40t32
	F33 []wkOS40t33
	F34 []wkOS40t34
	F35 []wkOS40t35
	F36 []wkOS40t36
	F37 []wkOS40t37
	F38 []wkOS40t38
	F39 []wkOS40t39
}
type wkOS40t16 struct {
	F17 []wkOS40t17
	F18 []wkOS40t18
	F19 []wkOS40t19
	F20 []wkOS40t20
	F21 []wkOS40t21
	F22 []wkOS40t22
	F23 []wkOS40t23
	F24 []wkOS40t24
	F25 []wkOS40t25
	F26 []wkOS40t26
	F27 []wkOS40t27
	F28 []wkOS40t28
	F29 []wkOS40t29
	F30 []wkOS40t30
	F31 []wkOS40t31
	F32 []wkOS40t32
	F33 []wkOS40t33
	F34 []wkOS40t34
	F35 []wkOS40t35
	F36 []wkOS40t36
	F37 []wkOS40t37
	F38 []wkOS40t38
	F39 []wkOS40t39
}
type wkOS40t17 struct {
	F18 []wkOS40t18
	F19 []wkOS40t19
	F20 []wkOS40t20
	F21 []wkOS40t21
	F22 []wkOS40t22
	F23 []wkOS40t23
	F24 []wkOS40t24
	F25 []wkOS40t25
	F26 []wkOS40t26
	F27 []wkOS40t27
	F28 []wkOS40t28
	F29 []wkOS40t29
	F30 []wkOS40t30
	F31 []wkOS40t31
	F32 []wkOS40t32
	F33 []wkOS40t33
	F34 []wkOS40t34
	F35 []wkOS40t35
	F36 []wkOS40t36
	F37 []wkOS40t37
	F38 []wkOS40t38
	F39 []wkOS40t39
}
type wkOS40t18 struct {
	F19 []wkOS40t19
	F20 []wkOS40t20
	F21 []wkOS40t21
	F22 []wkOS40t22
	F23 []wkOS40t23
	F24 []wkOS40t24
	F25 []wkOS40t25
	F26 []wkOS40t26
	F27 []wkOS40t27
	F28 []wkOS40t28
	F29 []wkOS40t29
	F30 []wkOS40t30
	F31 []wkOS40t31
	F32 []wkOS40t32
	F33 []wkOS40t33
	F34 []wkOS40t34
	F35 []wkOS40t35
	F36 []wkOS40t36
	F37 []wkOS40t37
	F38 []wkOS40t38
	F39 []wkOS40t39
}
type wkOS40t19 struct {
	F20 []wkOS40t20
	F21 []wkOS40t21
	F22 []wkOS40t22
	F23 []wkOS40t23
	F24 []wkOS40t24
	F25 []wkOS40t25
	F26 []wkOS40t26
	F27 []wkOS40t27
	F28 []wkOS40t28
	F29 []wkOS40t29
	F30 []wkOS40t30
	F31 []wkOS40t31
	F32 []wkOS40t32
	F33 []wkOS40t33
	F34 []wkOS40t34
	F35 []wkOS40t35
	F36 []wkOS40t36
	F37 []wkOS40t37
	F38 []wkOS40t38
	F39 []wkOS40t39
}
type wkOS40t20 struct {
	F21 []wkOS40t21
	F22 []wkOS40t22
	F23 []wkOS40t23
	F24 []wkOS40t24
	F25 []wkOS40t25
	F26 []wkOS40t26
	F27 []wkOS40t27
	F28 []wkOS40t28
	F29 []wkOS40t29
	F30 []wkOS40t30
	F31 []wkOS40t31
	F32 []wkOS40t32
	F33 []wkOS40t33
	F34 []wkOS40t34
	F35 []wkOS40t35
	F36 []wkOS40t36
	F37 []wkOS40t37
	F38 []wkOS40t38
	F39 []wkOS40t39
}
type wkOS40t21 struct {
	F22 []wkOS40t22
	F23 []wkOS40t23
	F24 []wkOS40t24
	F25 []wkOS40t25
	F26 []wkOS40t26
	F27 []wkOS40t27
	F28 []wkOS40t28
	F29 []wkOS40t29
	F30 []wkOS40t30
	F31 []wkOS40t31
	F32 []wkOS40t32
	F33 []wkOS40t33
	F34 []wkOS40t34
	F35 []wkOS40t35
	F36 []wkOS40t36
	F37 []wkOS40t37
	F38 []wkOS40t38
	F39 []wkOS40t39
}
type wkOS40t22 struct {
	F23 []wkOS40t23
	F24 []wkOS40t24
	F25 []wkOS40t25
	F26 []wkOS40t26
	F27 []wkOS40t27
	F28 []wkOS40t28
	F29 []wkOS40t29
	F30 []wkOS40t30
	F31 []wkOS40t31
	F32 []wkOS40t32
	F33 []wkOS40t33
	F34 []wkOS40t34
	F35 []wkOS40t35
	F36 []wkOS40t36
	F37 []wkOS40t37
	F38 []wkOS40t38
	F39 []wkOS40t39
}
type wkOS40t23 struct {
	F24 []wkOS40t24
	F25 []wkOS40t25
	F26 []wkOS40t26
	F27 []wkOS40t27
	F28 []wkOS40t28
	F29 []wkOS40t29
	F30 []wkOS40t30
	F31 []wkOS40t31
	F32 []wkOS40t32
	F33 []wkOS40t33
	F34 []wkOS40t34
	F35 []wkOS40t35
	F36 []wkOS40t36
	F37 []wkOS40t37
	F38 []wkOS40t38
	F39 []wkOS40t39
}
type wkOS40t24 struct {
	F25 []wkOS40t25
	F26 []wkOS40t26
	F27 []wkOS40t27
	F28 []wkOS40t28
	F29 []wkOS40t29
	F30 []wkOS40t30
	F31 []wkOS40t31
	F32 []wkOS40t32
	F33 []wkOS40t33
	F34 []wkOS40t34
	F35 []wkOS40t35
	F36 []wkOS40t36
	F37 []wkOS40t37
	F38 []wkOS40t38
	F39 []wkOS40t39
}
type wkOS40t25 struct {
	F26 []wkOS40t26
	F27 []wkOS40t27
	F28 []wkOS40t28
	F29 []wkOS40t29
	F30 []wkOS40t30
	F31 []wkOS40t31
	F32 []wkOS40t32
	F33 []wkOS40t33
	F34 []wkOS40t34
	F35 []wkOS40t35
	F36 []wkOS40t36
	F37 []wkOS40t37
	F38 []wkOS40t38
	F39 []wkOS40t39
}
type wkOS40t26 struct {
	F27 []wkOS40t27
	F28 []wkOS40t28
	F29 []wkOS40t29
	F30 []wkOS40t30
	F31 []wkOS40t31
	F32 []wkOS40t32
	F33 []wkOS40t33
	F34 []wkOS40t34
	F35 []wkOS40t35
	F36 []wkOS40t36
	F37 []wkOS40t37
	F38 []wkOS40t38
	F39 []wkOS40t39
}
type wkOS40t27 struct {
	F28 []wkOS40t28
	F29 []wkOS40t29
	F30 []wkOS40t30
	F31 []wkOS40t31
	F32 []wkOS40t32
	F33 []wkOS40t33
	F34 []wkOS40t34
	F35 []wkOS40t35
	F36 []wkOS40t36
	F37 []wkOS40t37
	F38 []wkOS40t38
	F39 []wkOS40t39
}
type wkOS40t28 struct {
	F29 []wkOS40t29
	F30 []wkOS40t30
	F31 []wkOS40t31
	F32 []wkOS40t32
	F33 []wkOS40t33
	F34 []wkOS40t34
	F35 []wkOS40t35
	F36 []wkOS40t36
	F37 []wkOS40t37
	F38 []wkOS40t38
	F39 []wkOS40t39
}
type wkOS40t29 struct {
	F30 []wkOS40t30
	F31 []wkOS40t31
	F32 []wkOS40t32
	F33 []wkOS40t33
	F34 []wkOS40t34
	F35 []wkOS40t35
	F36 []wkOS40t36
	F37 []wkOS40t37
	F38 []wkOS40t38
	F39 []wkOS40t39
}
type wkOS40t30 struct {
	F31 []wkOS40t31
	F32 []wkOS40t32
	F33 []wkOS40t33
	F34 []wkOS40t34
	F35 []wkOS40t35
	F36 []wkOS40t36
	F37 []wkOS40t37
	F38 []wkOS40t38
	F39 []wkOS40t39
}
type wkOS40t31 struct {
	F32 []wkOS40t32
	F33 []wkOS40t33
	F34 []wkOS40t34
	F35 []wkOS40t35
	F36 []wkOS40t36
	F37 []wkOS40t37
	F38 []wkOS40t38
	F39 []wkOS40t39
}
type wkOS40t32 struct {
	F33 []wkOS40t33
	F34 []wkOS40t34
	F35 []wkOS40t35
	F36 []wkOS40t36
	F37 []wkOS40t37
	F38 []wkOS40t38
	F39 []wkOS40t39
}
type wkOS40t33 struct {
	F34 []wkOS40t34
	F35 []wkOS40t35
	F36 []wkOS40t36
	F37 []wkOS40t37
	F38 []wkOS40t38
	F39 []wkOS40t39
}
type wkOS40t34 struct {
	F35 []wkOS40t35
	F36 []wkOS40t36
	F37 []wkOS40t37
	F38 []wkOS40t38
	F39 []wkOS40t39
}
type wkOS40t35 struct {
	F36 []wkOS40t36
	F37 []wkOS40t37
	F38 []wkOS40t38
	F39 []wkOS40t39
}
type wkOS40t36 struct {
	F37 []wkOS40t37
	F38 []wkOS40t38
	F39 []wkOS40t39
}
type wkOS40t37 struct {
	F38 []wkOS40t38
	F39 []wkOS40t39
}
type wkOS40t38 struct{ F39 []wkOS40t39 }
type wkOS40t39 struct{ F0 []wkOS40t0 }
type wkCP2t0 struct {
	F0 *wkCP2t0
	F1 *wkCP2t1
}
type wkCP2t1 struct {
	F0 *wkCP2t0
	F1 *wkCP2t1
}
type wkCP4t0 struct {
	F0 *wkCP4t0
	F1 *wkCP4t1
	F2 *wkCP4t2
	F3 *wkCP4t3
}
type wkCP4t1 struct {
	F0 *wkCP4t0
	F1 *wkCP4t1
	F2 *wkCP4t2
	F3 *wkCP4t3
}
type wkCP4t2 struct {
	F0 *wkCP4t0
	F1 *wkCP4t1
	F2 *wkCP4t2
	F3 *wkCP4t3
}
type wkCP4t3 struct {
	F0 *wkCP4t0
	F1 *wkCP4t1
	F2 *wkCP4t2
	F3 *wkCP4t3
}
type wkCP6t0 struct {
	F0 *wkCP6t0
	F1 *wkCP6t1
	F2 *wkCP6t2
	F3 *wkCP6t3
	F4 *wkCP6t4
	F5 *wkCP6t5
}
type wkCP6t1 struct {
	F0 *wkCP6t0
	F1 *wkCP6t1
	F2 *wkCP6t2
	F3 *wkCP6t3
	F4 *wkCP6t4
	F5 *wkCP6t5
}
type wkCP6t2 struct {
	F0 *wkCP6t0
	F1 *wkCP6t1
	F2 *wkCP6t2
	F3 *wkCP6t3
	F4 *wkCP6t4
	F5 *wkCP6t5
}
type wkCP6t3 struct {
	F0 *wkCP6t0
	F1 *wkCP6t1
	F2 *wkCP6t2
	F3 *wkCP6t3
	F4 *wkCP6t4
	F5 *wkCP6t5
}
type wkCP6t4 struct {
	F0 *wkCP6t0
	F1 *wkCP6t1
	F2 *wkCP6t2
	F3 *wkCP6t3
	F4 *wkCP6t4
	F5 *wkCP6t5
}
type wkCP6t5 struct {
	F0 *wkCP6t0
	F1 *wkCP6t1
	F2 *wkCP6t2
	F3 *wkCP6t3
	F4 *wkCP6t4
	F5 *wkCP6t5
}
type wkCP8t0 struct {
	F0 *wkCP8t0
	F1 *wkCP8t1
	F2 *wkCP8t2
	F3 *wkCP8t3
	F4 *wkCP8t4
	F5 *wkCP8t5
	F6 *wkCP8t6
	F7 *wkCP8t7
}
type wkCP8t1 struct {
	F0 *wkCP8t0
	F1 *wkCP8t1
	F2 *wkCP8t2
	F3 *wkCP8t3
	F4 *wkCP8t4
	F5 *wkCP8t5
	F6 *wkCP8t6
	F7 *wkCP8t7
}
type wkCP8t2 struct {
	F0 *wkCP8t0
	F1 *wkCP8t1
	F2 *wkCP8t2
	F3 *wkCP8t3
	F4 *wkCP8t4
	F5 *wkCP8t5
	F6 *wkCP8t6
	F7 *wkCP8t7
}
type wkCP8t3 struct {
	F0 *wkCP8t0
	F1 *wkCP8t1
	F2 *wkCP8t2
	F3 *wkCP8t3
	F4 *wkCP8t4
	F5 *wkCP8t5
	F6 *wkCP8t6
	F7 *wkCP8t7
}
type wkCP8t4 struct {
	F0 *wkCP8t0
	F1 *wkCP8t1
	F2 *wkCP8t2
	F3 *wkCP8t3
	F4 *wkCP8t4
	F5 *wkCP8t5
	F6 *wkCP8t6
	F7 *wkCP8t7
}
type wkCP8t5 struct {
	F0 *wkCP8t0
	F1 *wkCP8t1
	F2 *wkCP8t2
	F3 *wkCP8t3
	F4 *wkCP8t4
	F5 *wkCP8t5
	F6 *wkCP8t6
	F7 *wkCP8t7
}
type wkCP8t6 struct {
	F0 *wkCP8t0
	F1 *wkCP8t1
	F2 *wkCP8t2
	F3 *wkCP8t3
	F4 *wkCP8t4
	F5 *wkCP8t5
	F6 *wkCP8t6
	F7 *wkCP8t7
}
type wkCP8t7 struct {
	F0 *wkCP8t0
	F1 *wkCP8t1
	F2 *wkCP8t2
	F3 *wkCP8t3
	F4 *wkCP8t4
	F5 *wkCP8t5
	F6 *wkCP8t6
	F7 *wkCP8t7
}
type wkCP9t0 struct {
	F0 *wkCP9t0
	F1 *wkCP9t1
	F2 *wkCP9t2
	F3 *wkCP9t3
	F4 *wkCP9t4
	F5 *wkCP9t5
	F6 *wkCP9t6
	F7 *wkCP9t7
	F8 *wkCP9t8
}
type wkCP9t1 struct {
	F0 *wkCP9t0
	F1 *wkCP9t1
	F2 *wkCP9t2
	F3 *wkCP9t3
	F4 *wkCP9t4
	F5 *wkCP9t5
	F6 *wkCP9t6
	F7 *wkCP9t7
	F8 *wkCP9t8
}
type wkCP9t2 struct {
	F0 *wkCP9t0
	F1 *wkCP9t1
	F2 *wkCP9t2
	F3 *wkCP9t3
	F4 *wkCP9t4
	F5 *wkCP9t5
	F6 *wkCP9t6
	F7 *wkCP9t7
	F8 *wkCP9t8
}
type wkCP9t3 struct {
	F0 *wkCP9t0
	F1 *wkCP9t1
	F2 *wkCP9t2
	F3 *wkCP9t3
	F4 *wkCP9t4
	F5 *wkCP9t5
	F6 *wkCP9t6
	F7 *wkCP9t7
	F8 *wkCP9t8
}
type wkCP9t4 struct {
	F0 *wkCP9t0
	F1 *wkCP9t1
	F2 *wkCP9t2
	F3 *wkCP9t3
	F4 *wkCP9t4
	F5 *wkCP9t5
	F6 *wkCP9t6
	F7 *wkCP9t7
	F8 *wkCP9t8
}
type wkCP9t5 struct {
	F0 *wkCP9t0
	F1 *wkCP9t1
	F2 *wkCP9t2
	F3 *wkCP9t3
	F4 *wkCP9t4
	F5 *wkCP9t5
	F6 *wkCP9t6
	F7 *wkCP9t7
	F8 *wkCP9t8
}
type wkCP9t6 struct {
	F0 *wkCP9t0
	F1 *wkCP9t1
	F2 *wkCP9t2
	F3 *wkCP9t3
	F4 *wkCP9t4
	F5 *wkCP9t5
	F6 *wkCP9t6
	F7 *wkCP9t7
	F8 *wkCP9t8
}
type wkCP9t7 struct {
	F0 *wkCP9t0
	F1 *wkCP9t1
	F2 *wkCP9t2
	F3 *wkCP9t3
	F4 *wkCP9t4
	F5 *wkCP9t5
	F6 *wkCP9t6
	F7 *wkCP9t7
	F8 *wkCP9t8
}
type wkCP9t8 struct {
	F0 *wkCP9t0
	F1 *wkCP9t1
	F2 *wkCP9t2
	F3 *wkCP9t3
	F4 *wkCP9t4
	F5 *wkCP9t5
	F6 *wkCP9t6
	F7 *wkCP9t7
	F8 *wkCP9t8
}
type wkCP10t0 struct {
	F0 *wkCP10t0
	F1 *wkCP10t1
	F2 *wkCP10t2
	F3 *wkCP10t3
	F4 *wkCP10t4
	F5 *wkCP10t5
	F6 *wkCP10t6
	F7 *wkCP10t7
	F8 *wkCP10t8
	F9 *wkCP10t9
}
type wkCP10t1 struct {
	F0 *wkCP10t0
	F1 *wkCP10t1
	F2 *wkCP10t2
	F3 *wkCP10t3
	F4 *wkCP10t4
	F5 *wkCP10t5
	F6 *wkCP10t6
	F7 *wkCP10t7
	F8 *wkCP10t8
	F9 *wkCP10t9
}
type wkCP10t2 struct {
	F0 *wkCP10t0
	F1 *wkCP10t1
	F2 *wkCP10t2
	F3 *wkCP10t3
	F4 *wkCP10t4
	F5 *wkCP10t5
	F6 *wkCP10t6
	F7 *wkCP10t7
	F8 *wkCP10t8
	F9 *wkCP10t9
}
type wkCP10t3 struct {
	F0 *wkCP10t0
	F1 *wkCP10t1
	F2 *wkCP10t2
	F3 *wkCP10t3
	F4 *wkCP10t4
	F5 *wkCP10t5
	F6 *wkCP10t6
	F7 *wkCP10t7
	F8 *wkCP10t8
	F9 *wkCP10t9
}
type wkCP10t4 struct {
	F0 *wkCP10t0
	F1 *wkCP10t1
	F2 *wkCP10t2
	F3 *wkCP10t3
	F4 *wkCP10t4
	F5 *wkCP10t5
	F6 *wkCP10t6
	F7 *wkCP10t7
	F8 *wkCP10t8
	F9 *wkCP10t9
}
type wkCP10t5 struct {
	F0 *wkCP10t0
	F1 *wkCP10t1
	F2 *wkCP10t2
	F3 *wkCP10t3
	F4 *wkCP10t4
	F5 *wkCP10t5
	F6 *wkCP10t6
	F7 *wkCP10t7
	F8 *wkCP10t8
	F9 *wkCP10t9
}
type wkCP10t6 struct {
	F0 *wkCP10t0
	F1 *wkCP10t1
	F2 *wkCP10t2
	F3 *wkCP10t3
	F4 *wkCP10t4
	F5 *wkCP10t5
	F6 *wkCP10t6
	F7 *wkCP10t7
	F8 *wkCP10t8
	F9 *wkCP10t9
}
type wkCP10t7 struct {
	F0 *wkCP10t0
	F1 *wkCP10t1
	F2 *wkCP10t2
	F3 *wkCP10t3
	F4 *wkCP10t4
	F5 *wkCP10t5
	F6 *wkCP10t6
	F7 *wkCP10t7
	F8 *wkCP10t8
	F9 *wkCP10t9
}
type wkCP10t8 struct {
	F0 *wkCP10t0
	F1 *wkCP10t1
	F2 *wkCP10t2
	F3 *wkCP10t3
	F4 *wkCP10t4
	F5 *wkCP10t5
	F6 *wkCP10t6
	F7 *wkCP10t7
	F8 *wkCP10t8
	F9 *wkCP10t9
}
type wkCP10t9 struct {
	F0 *wkCP10t0
	F1 *wkCP10t1
	F2 *wkCP10t2
	F3 *wkCP10t3
	F4 *wkCP10t4
	F5 *wkCP10t5
	F6 *wkCP10t6
	F7 *wkCP10t7
	F8 *wkCP10t8
	F9 *wkCP10t9
}
type wkCP11t0 struct {
	F0  *wkCP11t0
	F1  *wkCP11t1
	F2  *wkCP11t2
	F3  *wkCP11t3
	F4  *wkCP11t4
	F5  *wkCP11t5
	F6  *wkCP11t6
	F7  *wkCP11t7
	F8  *wkCP11t8
	F9  *wkCP11t9
	F10 *wkCP11t10
}
type wkCP11t1 struct {
	F0  *wkCP11t0
	F1  *wkCP11t1
	F2  *wkCP11t2
	F3  *wkCP11t3
	F4  *wkCP11t4
	F5  *wkCP11t5
	F6  *wkCP11t6
	F7  *wkCP11t7
	F8  *wkCP11t8
	F9  *wkCP11t9
	F10 *wkCP11t10
}
type wkCP11t2 struct {
	F0  *wkCP11t0
	F1  *wkCP11t1
	F2  *wkCP11t2
	F3  *wkCP11t3
	F4  *wkCP11t4
	F5  *wkCP11t5
	F6  *wkCP11t6
	F7  *wkCP11t7
	F8  *wkCP11t8
	F9  *wkCP11t9
	F10 *wkCP11t10
}
type wkCP11t3 struct {
	F0  *wkCP11t0
	F1  *wkCP11t1
	F2  *wkCP11t2
	F3  *wkCP11t3
	F4  *wkCP11t4
	F5  *wkCP11t5
	F6  *wkCP11t6
	F7  *wkCP11t7
	F8  *wkCP11t8
	F9  *wkCP11t9
	F10 *wkCP11t10
}
type wkCP11t4 struct {
	F0  *wkCP11t0
	F1  *wkCP11t1
	F2  *wkCP11t2
	F3  *wkCP11t3
	F4  *wkCP11t4
	F5  *wkCP11t5
	F6  *wkCP11t6
	F7  *wkCP11t7
	F8  *wkCP11t8
	F9  *wkCP11t9
	F10 *wkCP11t10
}
type wkCP11t5 struct {
	F0  *wkCP11t0
	F1  *wkCP11t1
	F2  *wkCP11t2
	F3  *wkCP11t3
	F4  *wkCP11t4
	F5  *wkCP11t5
	F6  *wkCP11t6
	F7  *wkCP11t7
	F8  *wkCP11t8
	F9  *wkCP11t9
	F10 *wkCP11t10
}
type wkCP11t6 struct {
	F0  *wkCP11t0
	F1  *wkCP11t1
	F2  *wkCP11t2
	F3  *wkCP11t3
	F4  *wkCP11t4
	F5  *wkCP11t5
	F6  *wkCP11t6
	F7  *wkCP11t7
	F8  *wkCP11t8
	F9  *wkCP11t9
	F10 *wkCP11t10
}
type wkCP11t7 struct {
	F0  *wkCP11t0
	F1  *wkCP11t1
	F2  *wkCP11t2
	F3  *wkCP11t3
	F4  *wkCP11t4
	F5  *wkCP11t5
	F6  *wkCP11t6
	F7  *wkCP11t7
	F8  *wkCP11t8
	F9  *wkCP11t9
	F10 *wkCP11t10
}
type wkCP11t8 struct {
	F0  *wkCP11t0
	F1  *wkCP11t1
	F2  *wkCP11t2
	F3  *wkCP11t3
	F4  *wkCP11t4
	F5  *wkCP11t5
	F6  *wkCP11t6
	F7  *wkCP11t7
	F8  *wkCP11t8
	F9  *wkCP11t9
	F10 *wkCP11t10
}
type wkCP11t9 struct {
	F0  *wkCP11t0
	F1  *wkCP11t1
	F2  *wkCP11t2
	F3  *wkCP11t3
	F4  *wkCP11t4
	F5  *wkCP11t5
	F6  *wkCP11t6
	F7  *wkCP11t7
	F8  *wkCP11t8
	F9  *wkCP11t9
	F10 *wkCP11t10
}
type wkCP11t10 struct {
	F0  *wkCP11t0
	F1  *wkCP11t1
	F2  *wkCP11t2
	F3  *wkCP11t3
	F4  *wkCP11t4
	F5  *wkCP11t5
	F6  *wkCP11t6
	F7  *wkCP11t7
	F8  *wkCP11t8
	F9  *wkCP11t9
	F10 *wkCP11t10
}
type wkCP12t0 struct {
	F0  *wkCP12t0
	F1  *wkCP12t1
	F2  *wkCP12t2
	F3  *wkCP12t3
	F4  *wkCP12t4
	F5  *wkCP12t5
	F6  *wkCP12t6
	F7  *wkCP12t7
	F8  *wkCP12t8
	F9  *wkCP12t9
	F10 *wkCP12t10
	F11 *wkCP12t11
}
type wkCP12t1 struct {
	F0  *wkCP12t0
	F1  *wkCP12t1
	F2  *wkCP12t2
	F3  *wkCP12t3
	F4  *wkCP12t4
	F5  *wkCP12t5
	F6  *wkCP12t6
	F7  *wkCP12t7
	F8  *wkCP12t8
	F9  *wkCP12t9
	F10 *wkCP12t10
	F11 *wkCP12t11
}
type wkCP12t2 struct {
	F0  *wkCP12t0
	F1  *wkCP12t1
	F2  *wkCP12t2
	F3  *wkCP12t3
	F4  *wkCP12t4
	F5  *wkCP12t5
	F6  *wkCP12t6
	F7  *wkCP12t7
	F8  *wkCP12t8
	F9  *wkCP12t9
	F10 *wkCP12t10
	F11 *wkCP12t11
}
type wkCP12t3 struct {
	F0  *wkCP12t0
	F1  *wkCP12t1
	F2  *wkCP12t2
	F3  *wkCP12t3
	F4  *wkCP12t4
	F5  *wkCP12t5
	F6  *wkCP12t6
	F7  *wkCP12t7
	F8  *wkCP12t8
	F9  *wkCP12t9
	F10 *wkCP12t10
	F11 *wkCP12t11
}
type wkCP12t4 struct {
	F0  *wkCP12t0
	F1  *wkCP12t1
	F2  *wkCP12t2
	F3  *wkCP12t3
	F4  *wkCP12t4
	F5  *wkCP12t5
	F6  *wkCP12t6
	F7  *wkCP12t7
	F8  *wkCP12t8
	F9  *wkCP12t9
	F10 *wkCP12t10
	F11 *wkCP12t11
}
type wkCP12t5 struct {
	F0  *wkCP12t0
	F1  *wkCP12t1
	F2  *wkCP12t2
	F3  *wkCP12t3
	F4  *wkCP12t4
	F5  *wkCP12t5
	F6  *wkCP12t6
	F7  *wkCP12t7
	F8  *wkCP12t8
	F9  *wkCP12t9
	F10 *wkCP12t10
	F11 *wkCP12t11
}
type wkCP12t6 struct {
	F0  *wkCP12t0
	F1  *wkCP12t1
	F2  *wkCP12t2
	F3  *wkCP12t3
	F4  *wkCP12t4
	F5  *wkCP12t5
	F6  *wkCP12t6
	F7  *wkCP12t7
	F8  *wkCP12t8
	F9  *wkCP12t9
	F10 *wkCP12t10
	F11 *wkCP12t11
}
type wkCP12t7 struct {
	F0  *wkCP12t0
	F1  *wkCP12t1
	F2  *wkCP12t2
	F3  *wkCP12t3
	F4  *wkCP12t4
	F5  *wkCP12t5
	F6  *wkCP12t6
	F7  *wkCP12t7
	F8  *wkCP12t8
	F9  *wkCP12t9
	F10 *wkCP12t10
	F11 *wkCP12t11
}
type wkCP12t8 struct {
	F0  *wkCP12t0
	F1  *wkCP12t1
	F2  *wkCP12t2
	F3  *wkCP12t3
	F4  *wkCP12t4
	F5  *wkCP12t5
	F6  *wkCP12t6
	F7  *wkCP12t7
	F8  *wkCP12t8
	F9  *wkCP12t9
	F10 *wkCP12t10
	F11 *wkCP12t11
}
type wkCP12t9 struct {
	F0  *wkCP12t0
	F1  *wkCP12t1
	F2  *wkCP12t2
	F3  *wkCP12t3
	F4  *wkCP12t4
	F5  *wkCP12t5
	F6  *wkCP12t6
	F7  *wkCP12t7
	F8  *wkCP12t8
	F9  *wkCP12t9
	F10 *wkCP12t10
	F11 *wkCP12t11
}
type wkCP12t10 struct {
	F0  *wkCP12t0
	F1  *wkCP12t1
	F2  *wkCP12t2
	F3  *wkCP12t3
	F4  *wkCP12t4
	F5  *wkCP12t5
	F6  *wkCP12t6
	F7  *wkCP12t7
	F8  *wkCP12t8
	F9  *wkCP12t9
	F10 *wkCP12t10
	F11 *wkCP12t11
}
type wkCP12t11 struct {
	F0  *wkCP12t0
	F1  *wkCP12t1
	F2  *wkCP12t2
	F3  *wkCP12t3
	F4  *wkCP12t4
	F5  *wkCP12t5
	F6  *wkCP12t6
	F7  *wkCP12t7
	F8  *wkCP12t8
	F9  *wkCP12t9
	F10 *wkCP12t10
	F11 *wkCP12t11
}
type wkCP16t0 struct {
	F0  *wkCP16t0
	F1  *wkCP16t1
	F2  *wkCP16t2
	F3  *wkCP16t3
	F4  *wkCP16t4
	F5  *wkCP16t5
	F6  *wkCP16t6
	F7  *wkCP16t7
	F8  *wkCP16t8
	F9  *wkCP16t9
	F10 *wkCP16t10
	F11 *wkCP16t11
	F12 *wkCP16t12
	F13 *wkCP16t13
	F14 *wkCP16t14
	F15 *wkCP16t15
}
type wkCP16t1 struct {
	F0  *wkCP16t0
	F1  *wkCP16t1
	F2  *wkCP16t2
	F3  *wkCP16t3
	F4  *wkCP16t4
	F5  *wkCP16t5
	F6  *wkCP16t6
	F7  *wkCP16t7
	F8  *wkCP16t8
	F9  *wkCP16t9
	F10 *wkCP16t10
	F11 *wkCP16t11
	F12 *wkCP16t12
	F13 *wkCP16t13
	F14 *wkCP16t14
	F15 *wkCP16t15
}
type wkCP16t2 struct {
	F0  *wkCP16t0
	F1  *wkCP16t1
	F2  *wkCP16t2
	F3  *wkCP16t3
	F4  *wkCP16t4
	F5  *wkCP16t5
	F6  *wkCP16t6
	F7  *wkCP16t7
	F8  *wkCP16t8
	F9  *wkCP16t9
	F10 *wkCP16t10
	F11 *wkCP16t11
	F12 *wkCP16t12
	F13 *wkCP16t13
	F14 *wkCP16t14
	F15 *wkCP16t15
}
type wkCP16t3 struct {
	F0  *wkCP16t0
	F1  *wkCP16t1
	F2  *wkCP16t2
	F3  *wkCP16t3
	F4  *wkCP16t4
	F5  *wkCP16t5
	F6  *wkCP16t6
	F7  *wkCP16t7
	F8  *wkCP16t8
	F9  *wkCP16t9
	F10 *wkCP16t10
	F11 *wkCP16t11
	F12 *wkCP16t12
	F13 *wkCP16t13
	F14 *wkCP16t14
	F15 *wkCP16t15
}
type wkCP16t4 struct {
	F0  *wkCP16t0
	F1  *wkCP16t1
	F2  *wkCP16t2
	F3  *wkCP16t3
	F4  *wkCP16t4
	F5  *wkCP16t5
	F6  *wkCP16t6
	F7  *wkCP16t7
	F8  *wkCP16t8
	F9  *wkCP16t9
	F10 *wkCP16t10
	F11 *wkCP16t11
	F12 *wkCP16t12
	F13 *wkCP16t13
	F14 *wkCP16t14
	F15 *wkCP16t15
}
type wkCP16t5 struct {
	F0  *wkCP16t0
	F1  *wkCP16t1
	F2  *wkCP16t2
	F3  *wkCP16t3
	F4  *wkCP16t4
	F5  *wkCP16t5
	F6  *wkCP16t6
	F7  *wkCP16t7
	F8  *wkCP16t8
	F9  *wkCP16t9
	F10 *wkCP16t10
	F11 *wkCP16t11
	F12 *wkCP16t12
	F13 *wkCP16t13
	F14 *wkCP16t14
	F15 *wkCP16t15
}
type wkCP16t6 struct {
	F0  *wkCP16t0
	F1  *wkCP16t1
	F2  *wkCP16t2
	F3  *wkCP16t3
	F4  *wkCP16t4
	F5  *wkCP16t5
	F6  *wkCP16t6
	F7  *wkCP16t7
	F8  *wkCP16t8
	F9  *wkCP16t9
	F10 *wkCP16t10
	F11 *wkCP16t11
	F12 *wkCP16t12
	F13 *wkCP16t13
	F14 *wkCP16t14
	F15 *wkCP16t15
}
type wkCP16t7 struct {
	F0  *wkCP16t0
	F1  *wkCP16t1
	F2  *wkCP16t2
	F3  *wkCP16t3
	F4  *wkCP16t4
	F5  *wkCP16t5
	F6  *wkCP16t6
	F7  *wkCP16t7
	F8  *wkCP16t8
	F9  *wkCP16t9
	F10 *wkCP16t10
	F11 *wkCP16t11
	F12 *wkCP16t12
	F13 *wkCP16t13
	F14 *wkCP16t14
	F15 *wkCP16t15
}
type wkCP16t8 struct {
	F0  *wkCP16t0
	F1  *wkCP16t1
	F2  *wkCP16t2
	F3  *wkCP16t3
	F4  *wkCP16t4
	F5  *wkCP16t5
	F6  *wkCP16t6
	F7  *wkCP16t7
	F8  *wkCP16t8
	F9  *wkCP16t9
	F10 *wkCP16t10
	F11 *wkCP16t11
	F12 *wkCP16t12
	F13 *wkCP16t13
	F14 *wkCP16t14
	F15 *wkCP16t15
}
type wkCP16t9 struct {
	F0  *wkCP16t0
	F1  *wkCP16t1
	F2  *wkCP16t2
	F3  *wkCP16t3
	F4  *wkCP16t4
	F5  *wkCP16t5
	F6  *wkCP16t6
	F7  *wkCP16t7
	F8  *wkCP16t8
	F9  *wkCP16t9
	F10 *wkCP16t10
	F11 *wkCP16t11
	F12 *wkCP16t12
	F13 *wkCP16t13
	F14 *wkCP16t14
	F15 *wkCP16t15
}
type wkCP16t10 struct {
	F0  *wkCP16t0
	F1  *wkCP16t1
	F2  *wkCP16t2
	F3  *wkCP16t3
	F4  *wkCP16t4
	F5  *wkCP16t5
	F6  *wkCP16t6
	F7  *wkCP16t7
	F8  *wkCP16t8
	F9  *wkCP16t9
	F10 *wkCP16t10
	F11 *wkCP16t11
	F12 *wkCP16t12
	F13 *wkCP16t13
	F14 *wkCP16t14
	F15 *wkCP16t15
}
type wkCP16t11 struct {
	F0  *wkCP16t0
	F1  *wkCP16t1
	F2  *wkCP16t2
	F3  *wkCP16t3
	F4  *wkCP16t4
	F5  *wkCP16t5
	F6  *wkCP16t6
	F7  *wkCP16t7
	F8  *wkCP16t8
	F9  *wkCP16t9
	F10 *wkCP16t10
	F11 *wkCP16t11
	F12 *wkCP16t12
	F13 *wkCP16t13
	F14 *wkCP16t14
	F15 *wkCP16t15
}
type wkCP16t12 struct {
	F0  *wkCP16t0
	F1  *wkCP16t1
	F2  *wkCP16t2
	F3  *wkCP16t3
	F4  *wkCP16t4
	F5  *wkCP16t5
	F6  *wkCP16t6
	F7  *wkCP16t7
	F8  *wkCP16t8
	F9  *wkCP16t9
	F10 *wkCP16t10
	F11 *wkCP16t11
	F12 *wkCP16t12
	F13 *wkCP16t13
	F14 *wkCP16t14
	F15 *wkCP16t15
}
type wkCP16t13 struct {
	F0  *wkCP16t0
	F1  *wkCP16t1
	F2  *wkCP16t2
	F3  *wkCP16t3
	F4  *wkCP16t4
	F5  *wkCP16t5
	F6  *wkCP16t6
	F7  *wkCP16t7
	F8  *wkCP16t8
	F9  *wkCP16t9
	F10 *wkCP16t10
	F11 *wkCP16t11
	F12 *wkCP16t12
	F13 *wkCP16t13
	F14 *wkCP16t14
	F15 *wkCP16t15
}
type wkCP16t14 struct {
	F0  *wkCP16t0
	F1  *wkCP16t1
	F2  *wkCP16t2
	F3  *wkCP16t3
	F4  *wkCP16t4
	F5  *wkCP16t5
	F6  *wkCP16t6
	F7  *wkCP16t7
	F8  *wkCP16t8
	F9  *wkCP16t9
	F10 *wkCP16t10
	F11 *wkCP16t11
	F12 *wkCP16t12
	F13 *wkCP16t13
	F14 *wkCP16t14
	F15 *wkCP16t15
}
type wkCP16t15 struct {
	F0  *wkCP16t0
	F1  *wkCP16t1
	F2  *wkCP16t2
	F3  *wkCP16t3
	F4  *wkCP16t4
	F5  *wkCP16t5
	F6  *wkCP16t6
	F7  *wkCP16t7
	F8  *wkCP16t8
	F9  *wkCP16t9
	F10 *wkCP16t10
	F11 *wkCP16t11
	F12 *wkCP16t12
	F13 *wkCP16t13
	F14 *wkCP16t14
	F15 *wkCP16t15
}
type wkCP24t0 struct {
	F0  *wkCP24t0
	F1  *wkCP24t1
	F2  *wkCP24t2
	F3  *wkCP24t3
	F4  *wkCP24t4
	F5  *wkCP24t5
	F6  *wkCP24t6
	F7  *wkCP24t7
	F8  *wkCP24t8
	F9  *wkCP24t9
	F10 *wkCP24t10
	F11 *wkCP24t11
	F12 *wkCP24t12
	F13 *wkCP24t13
	F14 *wkCP24t14
	F15 *wkCP24t15
	F16 *wkCP24t16
	F17 *wkCP24t17
	F18 *wkCP24t18
	F19 *wkCP24t19
	F20 *wkCP24t20
	F21 *wkCP24t21
	F22 *wkCP24t22
	F23 *wkCP24t23
}
type wkCP24t1 struct {
	F0  *wkCP24t0
	F1  *wkCP24t1
	F2  *wkCP24t2
	F3  *wkCP24t3
	F4  *wkCP24t4
	F5  *wkCP24t5
	F6  *wkCP24t6
	F7  *wkCP24t7
	F8  *wkCP24t8
	F9  *wkCP24t9
	F10 *wkCP24t10
	F11 *wkCP24t11
	F12 *wkCP24t12
	F13 *wkCP24t13
	F14 *wkCP24t14
	F15 *wkCP24t15
	F16 *wkCP24t16
	F17 *wkCP24t17
	F18 *wkCP24t18
	F19 *wkCP24t19
	F20 *wkCP24t20
	F21 *wkCP24t21
	F22 *wkCP24t22
	F23 *wkCP24t23
}
type wkCP24t2 struct {
	F0  *wkCP24t0
	F1  *wkCP24t1
	F2  *wkCP24t2
	F3  *wkCP24t3
	F4  *wkCP24t4
	F5  *wkCP24t5
	F6  *wkCP24t6
	F7  *wkCP24t7
	F8  *wkCP24t8
	F9  *wkCP24t9
	F10 *wkCP24t10
	F11 *wkCP24t11
	F12 *wkCP24t12
	F13 *wkCP24t13
	F14 *wkCP24t14
	F15 *wkCP24t15
	F16 *wkCP24t16
	F17 *wkCP24t17
	F18 *wkCP24t18
	F19 *wkCP24t19
	F20 *wkCP24t20
	F21 *wkCP24t21
	F22 *wkCP24t22
	F23 *wkCP24t23
}
type wkCP24t3 struct {
	F0  *wkCP24t0
	F1  *wkCP24t1
	F2  *wkCP24t2
	F3  *wkCP24t3
	F4  *wkCP24t4
	F5  *wkCP24t5
	F6  *wkCP24t6
	F7  *wkCP24t7
	F8  *wkCP24t8
	F9  *wkCP24t9
	F10 *wkCP24t10
	F11 *wkCP24t11
	F12 *wkCP24t12
	F13 *wkCP24t13
	F14 *wkCP24t14
	F15 *wkCP24t15
	F16 *wkCP24t16
	F17 *wkCP24t17
	F18 *wkCP24t18
	F19 *wkCP24t19
	F20 *wkCP24t20
	F21 *wkCP24t21
	F22 *wkCP24t22
	F23 *wkCP24t23
}
type wkCP24t4 struct {
	F0  *wkCP24t0
	F1  *wkCP24t1
	F2  *wkCP24t2
	F3  *wkCP24t3
	F4  *wkCP24t4
	F5  *wkCP24t5
	F6  *wkCP24t6
	F7  *wkCP24t7
	F8  *wkCP24t8
	F9  *wkCP24t9
	F10 *wkCP24t10
	F11 *wkCP24t11
	F12 *wkCP24t12
	F13 *wkCP24t13
	F14 *wkCP24t14
	F15 *wkCP24t15
	F16 *wkCP24t16
	F17 *wkCP24t17
	F18 *wkCP24t18
	F19 *wkCP24t19
	F20 *wkCP24t20
	F21 *wkCP24t21
	F22 *wkCP24t22
	F23 *wkCP24t23
}
type wkCP24t5 struct {
	F0  *wkCP24t0
	F1  *wkCP24t1
	F2  *wkCP24t2
	F3  *wkCP24t3
	F4  *wkCP24t4
	F5  *wkCP24t5
	F6  *wkCP24t6
	F7  *wkCP24t7
	F8  *wkCP24t8
	F9  *wkCP24t9
	F10 *wkCP24t10
	F11 *wkCP24t11
	F12 *wkCP24t12
	F13 *wkCP24t13
	F14 *wkCP24t14
	F15 *wkCP24t15
	F16 *wkCP24t16
	F17 *wkCP24t17
	F18 *wkCP24t18
	F19 *wkCP24t19
	F20 *wkCP24t20
	F21 *wkCP24t21
	F22 *wkCP24t22
	F23 *wkCP24t23
}
type wkCP24t6 struct {
	F0  *wkCP24t0
	F1  *wkCP24t1
	F2  *wkCP24t2
	F3  *wkCP24t3
	F4  *wkCP24t4
	F5  *wkCP24t5
	F6  *wkCP24t6
	F7  *wkCP24t7
	F8  *wkCP24t8
	F9  *wkCP24t9
	F10 *wkCP24t10
	F11 *wkCP24t11
	F12 *wkCP24t12
	F13 *wkCP24t13
	F14 *wkCP24t14
	F15 *wkCP24t15
	F16 *wkCP24t16
	F17 *wkCP24t17
	F18 *wkCP24t18
	F19 *wkCP24t19
	F20 *wkCP24t20
	F21 *wkCP24t21
	F22 *wkCP24t22
	F23 *wkCP24t23
}
type wkCP24t7 struct {
	F0  *wkCP24t0
	F1  *wkCP24t1
	F2  *wkCP24t2
	F3  *wkCP24t3
	F4  *wkCP24t4
	F5  *wkCP24t5
	F6  *wkCP24t6
	F7  *wkCP24t7
	F8  *wkCP24t8
	F9  *wkCP24t9
	F10 *wkCP24t10
	F11 *wkCP24t11
	F12 *wkCP24t12
	F13 *wkCP24t13
	F14 *wkCP24t14
	F15 *wkCP24t15
	F16 *wkCP24t16
	F17 *wkCP24t17
	F18 *wkCP24t18
	F19 *wkCP24t19
	F20 *wkCP24t20
	F21 *wkCP24t21
	F22 *wkCP24t22
	F23 *wkCP24t23
}
type wkCP24t8 struct {
	F0  *wkCP24t0
	F1  *wkCP24t1
	F2  *wkCP24t2
	F3  *wkCP24t3
	F4  *wkCP24t4
	F5  *wkCP24t5
	F6  *wkCP24t6
	F7  *wkCP24t7
	F8  *wkCP24t8
	F9  *wkCP24t9
	F10 *wkCP24t10
	F11 *wkCP24t11
	F12 *wkCP24t12
	F13 *wkCP24t13
	F14 *wkCP24t14
	F15 *wkCP24t15
	F16 *wkCP24t16
	F17 *wkCP24t17
	F18 *wkCP24t18
	F19 *wkCP24t19
	F20 *wkCP24t20
	F21 *wkCP24t21
	F22 *wkCP24t22
	F23 *wkCP24t23
}
type wkCP24t9 struct {
	F0  *wkCP24t0
	F1  *wkCP24t1
	F2  *wkCP24t2
	F3  *wkCP24t3
	F4  *wkCP24t4
	F5  *wkCP24t5
	F6  *wkCP24t6
	F7  *wkCP24t7
	F8  *wkCP24t8
	F9  *wkCP24t9
	F10 *wkCP24t10
	F11 *wkCP24t11
	F12 *wkCP24t12
	F13 *wkCP24t13
	F14 *wkCP24t14
	F15 *wkCP24t15
	F16 *wkCP24t16
	F17 *wkCP24t17
	F18 *wkCP24t18
	F19 *wkCP24t19
	F20 *wkCP24t20
	F21 *wkCP24t21
	F22 *wkCP24t22
	F23 *wkCP24t23
}
type wkCP24t10 struct {
	F0  *wkCP24t0
	F1  *wkCP24t1
	F2  *wkCP24t2
	F3  *wkCP24t3
	F4  *wkCP24t4
	F5  *wkCP24t5
	F6  *wkCP24t6
	F7  *wkCP24t7
	F8  *wkCP24t8
	F9  *wkCP24t9
	F10 *wkCP24t10
	F11 *wkCP24t11
	F12 *wkCP24t12
	F13 *wkCP24t13
	F14 *wkCP24t14
	F15 *wkCP24t15
	F16 *wkCP24t16
	F17 *wkCP24t17
	F18 *wkCP24t18
	F19 *wkCP24t19
	F20 *wkCP24t20
	F21 *wkCP24t21
	F22 *wkCP24t22
	F23 *wkCP24t23
}
type wkCP24t11 struct {
	F0  *wkCP24t0
	F1  *wkCP24t1
	F2  *wkCP24t2
	F3  *wkCP24t3
	F4  *wkCP24t4
	F5  *wkCP24t5
	F6  *wkCP24t6
	F7  *wkCP24t7
	F8  *wkCP24t8
	F9  *wkCP24t9
	F10 *wkCP24t10
	F11 *wkCP24t11
	F12 *wkCP24t12
	F13 *wkCP24t13
	F14 *wkCP24t14
	F15 *wkCP24t15
	F16 *wkCP24t16
	F17 *wkCP24t17
	F18 *wkCP24t18
	F19 *wkCP24t19
	F20 *wkCP24t20
	F21 *wkCP24t21
	F22 *wkCP24t22
	F23 *wkCP24t23
}
type wkCP24t12 struct {
	F0  *wkCP24t0
	F1  *wkCP24t1
	F2  *wkCP24t2
	F3  *wkCP24t3
	F4  *wkCP24t4
	F5  *wkCP24t5
	F6  *wkCP24t6
	F7  *wkCP24t7
	F8  *wkCP24t8
	F9  *wkCP24t9
	F10 *wkCP24t10
	F11 *wkCP24t11
	F12 *wkCP24t12
	F13 *wkCP24t13
	F14 *wkCP24t14
	F15 *wkCP24t15
	F16 *wkCP24t16
	F17 *wkCP24t17
	F18 *wkCP24t18
	F19 *wkCP24t19
	F20 *wkCP24t20
	F21 *wkCP24t21
	F22 *wkCP24t22
	F23 *wkCP24t23
}
type wkCP24t13 struct {
	F0  *wkCP24t0
	F1  *wkCP24t1
	F2  *wkCP24t2
	F3  *wkCP24t3
	F4  *wkCP24t4
	F5  *wkCP24t5
	F6  *wkCP24t6
	F7  *wkCP24t7
	F8  *wkCP24t8
	F9  *wkCP24t9
	F10 *wkCP24t10
	F11 *wkCP24t11
	F12 *wkCP24t12
	F13 *wkCP24t13
	F14 *wkCP24t14
	F15 *wkCP24t15
	F16 *wkCP24t16
	F17 *wkCP24t17
	F18 *wkCP24t18
	F19 *wkCP24t19
	F20 *wkCP24t20
	F21 *wkCP24t21
	F22 *wkCP24t22
	F23 *wkCP24t23
}
type wkCP24t14 struct {
	F0  *wkCP24t0
	F1  *wkCP24t1
	F2  *wkCP24t2
	F3  *wkCP24t3
	F4  *wkCP24t4
	F5  *wkCP24t5
	F6  *wkCP24t6
	F7  *wkCP24t7
	F8  *wkCP24t8
	F9  *wkCP24t9
	F10 *wkCP24t10
	F11 *wkCP24t11
	F12 *wkCP24t12
	F13 *wkCP24t13
	F14 *wkCP24t14
	F15 *wkCP24t15
	F16 *wkCP24t16
	F17 *wkCP24t17
	F18 *wkCP24t18
	F19 *wkCP24t19
	F20 *wkCP24t20
	F21 *wkCP24t21
	F22 *wkCP24t22
	F23 *wkCP24t23
}
type wkCP24t15 struct {
	F0  *wkCP24t0
	F1  *wkCP24t1
	F2  *wkCP24t2
	F3  *wkCP24t3
	F4  *wkCP24t4
	F5  *wkCP24t5
	F6  *wkCP24t6
	F7  *wkCP24t7
	F8  *wkCP24t8
	F9  *wkCP24t9
	F10 *wkCP24t10
	F11 *wkCP24t11
	F12 *wkCP24t12
	F13 *wkCP24t13
	F14 *wkCP24t14
	F15 *wkCP24t15
	F16 *wkCP24t16
	F17 *wkCP24t17
	F18 *wkCP24t18
	F19 *wkCP24t19
	F20 *wkCP24t20
	F21 *wkCP24t21
	F22 *wkCP24t22
	F23 *wkCP24t23
}
type wkCP24t16 struct {
	F0  *wkCP24t0
	F1  *wkCP24t1
	F2  *wkCP24t2
	F3  *wkCP24t3
	F4  *wkCP24t4
	F5  *wkCP24t5
	F6  *wkCP24t6
	F7  *wkCP24t7
	F8  *wkCP24t8
	F9  *wkCP24t9
	F10 *wkCP24t10
	F11 *wkCP24t11
	F12 *wkCP24t12
	F13 *wkCP24t13
	F14 *wkCP24t14
	F15 *wkCP24t15
	F16 *wkCP24t16
	F17 *wkCP24t17
	F18 *wkCP24t18
	F19 *wkCP24t19
	F20 *wkCP24t20
	F21 *wkCP24t21
	F22 *wkCP24t22
	F23 *wkCP24t23
}
type wkCP24t17 struct {
	F0  *wkCP24t0
	F1  *wkCP24t1
	F2  *wkCP24t2
	F3  *wkCP24t3
	F4  *wkCP24t4
	F5  *wkCP24t5
	F6  *wkCP24t6
	F7  *wkCP24t7
	F8  *wkCP24t8
	F9  *wkCP24t9
	F10 *wkCP24t10
	F11 *wkCP24t11
	F12 *wkCP24t12
	F13 *wkCP24t13
	F14 *wkCP24t14
	F15 *wkCP24t15
	F16 *wkCP24t16
	F17 *wkCP24t17
	F18 *wkCP24t18
	F19 *wkCP24t19
	F20 *wkCP24t20
	F21 *wkCP24t21
	F22 *wkCP24t22
	F23 *wkCP24t23
}
type wkCP24t18 struct {
	F0  *wkCP24t0
	F1  *wkCP24t1
	F2  *wkCP24t2
	F3  *wkCP24t3
	F4  *wkCP24t4
	F5  *wkCP24t5
	F6  *wkCP24t6
	F7  *wkCP24t7
	F8  *wkCP24t8
	F9  *wkCP24t9
	F10 *wkCP24t10
	F11 *wkCP24t11
	F12 *wkCP24t12
	F13 *wkCP24t13
	F14 *wkCP24t14
	F15 *wkCP24t15
	F16 *wkCP24t16
	F17 *wkCP24t17
	F18 *wkCP24t18
	F19 *wkCP24t19
	F20 *wkCP24t20
	F21 *wkCP24t21
	F22 *wkCP24t22
	F23 *wkCP24t23
}
type wkCP24t19 struct {
	F0  *wkCP24t0
	F1  *wkCP24t1
	F2  *wkCP24t2
	F3  *wkCP24t3
	F4  *wkCP24t4
	F5  *wkCP24t5
	F6  *wkCP24t6
	F7  *wkCP24t7
	F8  *wkCP24t8
	F9  *wkCP24t9
	F10 *wkCP24t10
	F11 *wkCP24t11
	F12 *wkCP24t12
	F13 *wkCP24t13
	F14 *wkCP24t14
	F15 *wkCP24t15
	F16 *wkCP24t16
	F17 *wkCP24t17
	F18 *wkCP24t18
	F19 *wkCP24t19
	F20 *wkCP24t20
	F21 *wkCP24t21
	F22 *wkCP24t22
	F23 *wkCP24t23
}
type wkCP24t20 struct {
	F0  *wkCP24t0
	F1  *wkCP24t1
	F2  *wkCP24t2
	F3  *wkCP24t3
	F4  *wkCP24t4
	F5  *wkCP24t5
	F6  *wkCP24t6
	F7  *wkCP24t7
	F8  *wkCP24t8
	F9  *wkCP24t9
	F10 *wkCP24t10
	F11 *wkCP24t11
	F12 *wkCP24t12
	F13 *wkCP24t13
	F14 *wkCP24t14
	F15 *wkCP24t15
	F16 *wkCP24t16
	F17 *wkCP24t17
	F18 *wkCP24t18
	F19 *wkCP24t19
	F20 *wkCP24t20
	F21 *wkCP24t21
	F22 *wkCP24t22
	F23 *wkCP24t23
}
type wkCP24t21 struct {
	F0  *wkCP24t0
	F1  *wkCP24t1
	F2  *wkCP24t2
	F3  *wkCP24t3
	F4  *wkCP24t4
	F5  *wkCP24t5
	F6  *wkCP24t6
	F7  *wkCP24t7
	F8  *wkCP24t8
	F9  *wkCP24t9
	F10 *wkCP24t10
	F11 *wkCP24t11
	F12 *wkCP24t12
	F13 *wkCP24t13
	F14 *wkCP24t14
	F15 *wkCP24t15
	F16 *wkCP24t16
	F17 *wkCP24t17
	F18 *wkCP24t18
	F19 *wkCP24t19
	F20 *wkCP24t20
	F21 *wkCP24t21
	F22 *wkCP24t22
	F23 *wkCP24t23
}
type wkCP24t22 struct {
	F0  *wkCP24t0
	F1  *wkCP24t1
	F2  *wkCP24t2
	F3  *wkCP24t3
	F4  *wkCP24t4
	F5  *wkCP24t5
	F6  *wkCP24t6
	F7  *wkCP24t7
	F8  *wkCP24t8
	F9  *wkCP24t9
	F10 *wkCP24t10
	F11 *wkCP24t11
	F12 *wkCP24t12
	F13 *wkCP24t13
	F14 *wkCP24t14
	F15 *wkCP24t15
	F16 *wkCP24t16
	F17 *wkCP24t17
	F18 *wkCP24t18
	F19 *wkCP24t19
	F20 *wkCP24t20
	F21 *wkCP24t21
	F22 *wkCP24t22
	F23 *wkCP24t23
}
type wkCP24t23 struct {
	F0  *wkCP24t0
	F1  *wkCP24t1
	F2  *wkCP24t2
	F3  *wkCP24t3
	F4  *wkCP24t4
	F5  *wkCP24t5
	F6  *wkCP24t6
	F7  *wkCP24t7
	F8  *wkCP24t8
	F9  *wkCP24t9
	F10 *wkCP24t10
	F11 *wkCP24t11
	F12 *wkCP24t12
	F13 *wkCP24t13
	F14 *wkCP24t14
	F15 *wkCP24t15
	F16 *wkCP24t16
	F17 *wkCP24t17
	F18 *wkCP24t18
	F19 *wkCP24t19
	F20 *wkCP24t20
	F21 *wkCP24t21
	F22 *wkCP24t22
	F23 *wkCP24t23
}
type wkDP4t0 struct{ A int }
type wkDP4t1 struct {
	A *wkDP4t0
	B *wkDP4t0
	C *wkDP4t0
}
type wkDP4t2 struct {
	A *wkDP4t1
	B *wkDP4t1
	C *wkDP4t1
}
type wkDP4t3 struct {
	A *wkDP4t2
	B *wkDP4t2
	C *wkDP4t2
}
type wkDP4t4 struct {
	A *wkDP4t3
	B *wkDP4t3
	C *wkDP4t3
}
type wkDP8t0 struct{ A int }
type wkDP8t1 struct {
	A *wkDP8t0
	B *wkDP8t0
	C *wkDP8t0
}
type wkDP8t2 struct {
	A *wkDP8t1
	B *wkDP8t1
	C *wkDP8t1
}
type wkDP8t3 struct {
	A *wkDP8t2
	B *wkDP8t2
	C *wkDP8t2
}
type wkDP8t4 struct {
	A *wkDP8t3
	B *wkDP8t3
	C *wkDP8t3
}
type wkDP8t5 struct {
	A *wkDP8t4
	B *wkDP8t4
	C *wkDP8t4
}
type wkDP8t6 struct {
	A *wkDP8t5
	B *wkDP8t5
	C *wkDP8t5
}
type wkDP8t7 struct {
	A *wkDP8t6
	B *wkDP8t6
	C *wkDP8t6
}
type wkDP8t8 struct {
	A *wkDP8t7
	B *wkDP8t7
	C *wkDP8t7
}
type wkDP11t0 struct{ A int }
type wkDP11t1 struct {
	A *wkDP11t0
	B *wkDP11t0
	C *wkDP11t0
}
type wkDP11t2 struct {
	A *wkDP11t1
	B *wkDP11t1
	C *wkDP11t1
}
type wkDP11t3 struct {
	A *wkDP11t2
	B *wkDP11t2
	C *wkDP11t2
}
type wkDP11t4 struct {
	A *wkDP11t3
	B *wkDP11t3
	C *wkDP11t3
}
type wkDP11t5 struct {
	A *wkDP11t4
	B *wkDP11t4
	C *wkDP11t4
}
type wkDP11t6 struct {
	A *wkDP11t5
	B *wkDP11t5
	C *wkDP11t5
}
type wkDP11t7 struct {
	A *wkDP11t6
	B *wkDP11t6
	C *wkDP11t6
}
type wkDP11t8 struct {
	A *wkDP11t7
	B *wkDP11t7
	C *wkDP11t7
}
type wkDP11t9 struct {
	A *wkDP11t8
	B *wkDP11t8
	C *wkDP11t8
}
type wkDP11t10 struct {
	A *wkDP11t9
	B *wkDP11t9
	C *wkDP11t9
}
type wkDP11t11 struct {
	A *wkDP11t10
	B *wkDP11t10
	C *wkDP11t10
}
type wkDP13t0 struct{ A int }
type wkDP13t1 struct {
	A *wkDP13t0
	B *wkDP13t0
	C *wkDP13t0
}
type wkDP13t2 struct {
	A *wkDP13t1
	B *wkDP13t1
	C *wkDP13t1
}
type wkDP13t3 struct {
	A *wkDP13t2
	B *wkDP13t2
	C *wkDP13t2
}
type wkDP13t4 struct {
	A *wkDP13t3
	B *wkDP13t3
	C *wkDP13t3
}
type wkDP13t5 struct {
	A *wkDP13t4
	B *wkDP13t4
	C *wkDP13t4
}
type wkDP13t6 struct {
	A *wkDP13t5
	B *wkDP13t5
	C *wkDP13t5
}
type wkDP13t7 struct {
	A *wkDP13t6
	B *wkDP13t6
	C *wkDP13t6
}
type wkDP13t8 struct {
	A *wkDP13t7
	B *wkDP13t7
	C *wkDP13t7
}
type wkDP13t9 struct {
	A *wkDP13t8
	B *wkDP13t8
	C *wkDP13t8
}
type wkDP13t10 struct {
	A *wkDP13t9
	B *wkDP13t9
	C *wkDP13t9
}
type wkDP13t11 struct {
	A *wkDP13t10
	B *wkDP13t10
	C *wkDP13t10
}
type wkDP13t12 struct {
	A *wkDP13t11
	B *wkDP13t11
	C *wkDP13t11
}
type wkDP13t13 struct {
	A *wkDP13t12
	B *wkDP13t12
	C *wkDP13t12
}
type wkDP16t0 struct{ A int }
type wkDP16t1 struct {
	A *wkDP16t0
	B *wkDP16t0
	C *wkDP16t0
}
type wkDP16t2 struct {
	A *wkDP16t1
	B *wkDP16t1
	C *wkDP16t1
}
type wkDP16t3 struct {
	A *wkDP16t2
	B *wkDP16t2
	C *wkDP16t2
}
type wkDP16t4 struct {
	A *wkDP16t3
	B *wkDP16t3
	C *wkDP16t3
}
type wkDP16t5 struct {
	A *wkDP16t4
	B *wkDP16t4
	C *wkDP16t4
}
type wkDP16t6 struct {
	A *wkDP16t5
	B *wkDP16t5
	C *wkDP16t5
}
type wkDP16t7 struct {
	A *wkDP16t6
	B *wkDP16t6
	C *wkDP16t6
}
type wkDP16t8 struct {
	A *wkDP16t7
	B *wkDP16t7
	C *wkDP16t7
}
type wkDP16t9 struct {
	A *wkDP16t8
	B *wkDP16t8
	C *wkDP16t8
}
type wkDP16t10 struct {
	A *wkDP16t9
	B *wkDP16t9
	C *wkDP16t9
}
type wkDP16t11 struct {
	A *wkDP16t10
	B *wkDP16t10
	C *wkDP16t10
}
type wkDP16t12 struct {
	A *wkDP16t11
	B *wkDP16t11
	C *wkDP16t11
}
type wkDP16t13 struct {
	A *wkDP16t12
	B *wkDP16t12
	C *wkDP16t12
}
type wkDP16t14 struct {
	A *wkDP16t13
	B *wkDP16t13
	C *wkDP16t13
}
type wkDP16t15 struct {
	A *wkDP16t14
	B *wkDP16t14
	C *wkDP16t14
}
type wkDP16t16 struct {
	A *wkDP16t15
	B *wkDP16t15
	C *wkDP16t15
}
type wkDP40t0 struct{ A int }
type wkDP40t1 struct {
	A *wkDP40t0
	B *wkDP40t0
	C *wkDP40t0
}
type wkDP40t2 struct {
	A *wkDP40t1
	B *wkDP40t1
	C *wkDP40t1
}
type wkDP40t3 struct {
	A *wkDP40t2
	B *wkDP40t2
	C *wkDP40t2
}
type wkDP40t4 struct {
	A *wkDP40t3
	B *wkDP40t3
	C *wkDP40t3
}
type wkDP40t5 struct {
	A *wkDP40t4
	B *wkDP40t4
	C *wkDP40t4
}
type wkDP40t6 struct {
	A *wkDP40t5
	B *wkDP40t5
	C *wkDP40t5
}
type wkDP40t7 struct {
	A *wkDP40t6
	B *wkDP40t6
	C *wkDP40t6
}
type wkDP40t8 struct {
	A *wkDP40t7
	B *wkDP40t7
	C *wkDP40t7
}
type wkDP40t9 struct {
	A *wkDP40t8
	B *wkDP40t8
	C *wkDP40t8
}
type wkDP40t10 struct {
	A *wkDP40t9
	B *wkDP40t9
	C *wkDP40t9
}
type wkDP40t11 struct {
	A *wkDP40t10
	B *wkDP40t10
	C *wkDP40t10
}
type wkDP40t12 struct {
	A *wkDP40t11
	B *wkDP40t11
	C *wkDP40t11
}
type wkDP40t13 struct {
	A *wkDP40t12
	B *wkDP40t12
	C *wkDP40t12
}
type wkDP40t14 struct {
	A *wkDP40t13
	B *wkDP40t13
	C *wkDP40t13
}
type wkDP40t15 struct {
	A *wkDP40t14
	B *wkDP40t14
	C *wkDP40t14
}
type wkDP40t16 struct {
	A *wkDP40t15
	B *wkDP40t15
	C *wkDP40t15
}
type wkDP40t17 struct {
	A *wkDP40t16
	B *wkDP40t16
	C *wkDP40t16
}
type wkDP40t18 struct {
	A *wkDP40t17
	B *wkDP40t17
	C *wkDP40t17
}
type wkDP40t19 struct {
	A *wkDP40t18
	B *wkDP40t18
	C *wkDP40t18
}
type wkDP40t20 struct {
	A *wkDP40t19
	B *wkDP40t19
	C *wkDP40t19
}
type wkDP40t21 struct {
	A *wkDP40t20
	B *wkDP40t20
	C *wkDP40t20
}
type wkDP40t22 struct {
	A *wkDP40t21
	B *wkDP40t21
	C *wkDP40t21
}
type wkDP40t23 struct {
	A *wkDP40t22
	B *wkDP40t22
	C *wkDP40t22
}
type wkDP40t24 struct {
	A *wkDP40t23
	B *wkDP40t23
	C *wkDP40t23
}
type wkDP40t25 struct {
	A *wkDP40t24
	B *wkDP40t24
	C *wkDP40t24
}
type wkDP40t26 struct {
	A *wkDP40t25
	B *wkDP40t25
	C *wkDP40t25
}
type wkDP40t27 struct {
	A *wkDP40t26
	B *wkDP40t26
	C *wkDP40t26
}
type wkDP40t28 struct {
	A *wkDP40t27
	B *wkDP40t27
	C *wkDP40t27
}
type wkDP40t29 struct {
	A *wkDP40t28
	B *wkDP40t28
	C *wkDP40t28
}
type wkDP40t30 struct {
	A *wkDP40t29
	B *wkDP40t29
	C *wkDP40t29
}
type wkDP40t31 struct {
	A *wkDP40t30
	B *wkDP40t30
	C *wkDP40t30
}
type wkDP40t32 struct {
	A *wkDP40t31
	B *wkDP40t31
	C *wkDP40t31
}
type wkDP40t33 struct {
	A *wkDP40t32
	B *wkDP40t32
	C *wkDP40t32
}
type wkDP40t34 struct {
	A *wkDP40t33
	B *wkDP40t33
	C *wkDP40t33
}
type wkDP40t35 struct {
	A *wkDP40t34
	B *wkDP40t34
	C *wkDP40t34
}
type wkDP40t36 struct {
	A *wkDP40t35
	B *wkDP40t35
	C *wkDP40t35
}
type wkDP40t37 struct {
	A *wkDP40t36
	B *wkDP40t36
	C *wkDP40t36
}
type wkDP40t38 struct {
	A *wkDP40t37
	B *wkDP40t37
	C *wkDP40t37
}
type wkDP40t39 struct {
	A *wkDP40t38
	B *wkDP40t38
	C *wkDP40t38
}
type wkDP40t40 struct {
	A *wkDP40t39
	B *wkDP40t39
	C *wkDP40t39
}
type wkOP8t0 struct {
	F1 *wkOP8t1
	F2 *wkOP8t2
	F3 *wkOP8t3
	F4 *wkOP8t4
	F5 *wkOP8t5
	F6 *wkOP8t6
	F7 *wkOP8t7
}
type wkOP8t1 struct {
	F2 *wkOP8t2
	F3 *wkOP8t3
	F4 *wkOP8t4
	F5 *wkOP8t5
	F6 *wkOP8t6
	F7 *wkOP8t7
}
type wkOP8t2 struct {
	F3 *wkOP8t3
	F4 *wkOP8t4
	F5 *wkOP8t5
	F6 *wkOP8t6
	F7 *wkOP8t7
}
type wkOP8t3 struct {
	F4 *wkOP8t4
	F5 *wkOP8t5
	F6 *wkOP8t6
	F7 *wkOP8t7
}
type wkOP8t4 struct {
	F5 *wkOP8t5
	F6 *wkOP8t6
	F7 *wkOP8t7
}
type wkOP8t5 struct {
	F6 *wkOP8t6
	F7 *wkOP8t7
}
type wkOP8t6 struct{ F7 *wkOP8t7 }
type wkOP8t7 struct{ F0 *wkOP8t0 }
type wkOP16t0 struct {
	F1  *wkOP16t1
	F2  *wkOP16t2
	F3  *wkOP16t3
	F4  *wkOP16t4
	F5  *wkOP16t5
	F6  *wkOP16t6
	F7  *wkOP16t7
	F8  *wkOP16t8
	F9  *wkOP16t9
	F10 *wkOP16t10
	F11 *wkOP16t11
	F12 *wkOP16t12
	F13 *wkOP16t13
	F14 *wkOP16t14
	F15 *wkOP16t15
}
type wkOP16t1 struct {
	F2  *wkOP16t2
	F3  *wkOP16t3
	F4  *wkOP16t4
	F5  *wkOP16t5
	F6  *wkOP16t6
	F7  *wkOP16t7
	F8  *wkOP16t8
	F9  *wkOP16t9
	F10 *wkOP16t10
	F11 *wkOP16t11
	F12 *wkOP16t12
	F13 *wkOP16t13
	F14 *wkOP16t14
	F15 *wkOP16t15
}
type wkOP16t2 struct {
	F3  *wkOP16t3
	F4  *wkOP16t4
	F5  *wkOP16t5
	F6  *wkOP16t6
	F7  *wkOP16t7
	F8  *wkOP16t8
	F9  *wkOP16t9
	F10 *wkOP16t10
	F11 *wkOP16t11
	F12 *wkOP16t12
	F13 *wkOP16t13
	F14 *wkOP16t14
	F15 *wkOP16t15
}
type wkOP16t3 struct {
	F4  *wkOP16t4
	F5  *wkOP16t5
	F6  *wkOP16t6
	F7  *wkOP16t7
	F8  *wkOP16t8
	F9  *wkOP16t9
	F10 *wkOP16t10
	F11 *wkOP16t11
	F12 *wkOP16t12
	F13 *wkOP16t13
	F14 *wkOP16t14
	F15 *wkOP16t15
}
type wkOP16t4 struct {
	F5  *wkOP16t5
	F6  *wkOP16t6
	F7  *wkOP16t7
	F8  *wkOP16t8
	F9  *wkOP16t9
	F10 *wkOP16t10
	F11 *wkOP16t11
	F12 *wkOP16t12
	F13 *wkOP16t13
	F14 *wkOP16t14
	F15 *wkOP16t15
}
type wkOP16t5 struct {
	F6  *wkOP16t6
	F7  *wkOP16t7
	F8  *wkOP16t8
	F9  *wkOP16t9
	F10 *wkOP16t10
	F11 *wkOP16t11
	F12 *wkOP16t12
	F13 *wkOP16t13
	F14 *wkOP16t14
	F15 *wkOP16t15
}
type wkOP16t6 struct {
	F7  *wkOP16t7
	F8  *wkOP16t8
	F9  *wkOP16t9
	F10 *wkOP16t10
	F11 *wkOP16t11
	F12 *wkOP16t12
	F13 *wkOP16t13
	F14 *wkOP16t14
	F15 *wkOP16t15
}
type wkOP16t7 struct {
	F8  *wkOP16t8
	F9  *wkOP16t9
	F10 *wkOP16t10
	F11 *wkOP16t11
	F12 *wkOP16t12
	F13 *wkOP16t13
	F14 *wkOP16t14
	F15 *wkOP16t15
}
type wkOP16t8 struct {
	F9  *wkOP16t9
	F10 *wkOP16t10
	F11 *wkOP16t11
	F12 *wkOP16t12
	F13 *wkOP16t13
	F14 *wkOP16t14
	F15 *wkOP16t15
}
type wkOP16t9 struct {
	F10 *wkOP16t10
	F11 *wkOP16t11
	F12 *wkOP16t12
	F13 *wkOP16t13
	F14 *wkOP16t14
	F15 *wkOP16t15
}
type wkOP16t10 struct {
	F11 *wkOP16t11
	F12 *wkOP16t12
	F13 *wkOP16t13
	F14 *wkOP16t14
	F15 *wkOP16t15
}
type wkOP16t11 struct {
	F12 *wkOP16t12
	F13 *wkOP16t13
	F14 *wkOP16t14
	F15 *wkOP16t15
}
type wkOP16t12 struct {
	F13 *wkOP16t13
	F14 *wkOP16t14
	F15 *wkOP16t15
}
type wkOP16t13 struct {
	F14 *wkOP16t14
	F15 *wkOP16t15
}
type wkOP16t14 struct{ F15 *wkOP16t15 }
type wkOP16t15 struct{ F0 *wkOP16t0 }
type wkOP20t0 struct {
	F1  *wkOP20t1
	F2  *wkOP20t2
	F3  *wkOP20t3
	F4  *wkOP20t4
	F5  *wkOP20t5
	F6  *wkOP20t6
	F7  *wkOP20t7
	F8  *wkOP20t8
	F9  *wkOP20t9
	F10 *wkOP20t10
	F11 *wkOP20t11
	F12 *wkOP20t12
	F13 *wkOP20t13
	F14 *wkOP20t14
	F15 *wkOP20t15
	F16 *wkOP20t16
	F17 *wkOP20t17
	F18 *wkOP20t18
	F19 *wkOP20t19
}
type wkOP20t1 struct {
	F2  *wkOP20t2
	F3  *wkOP20t3
	F4  *wkOP20t4
	F5  *wkOP20t5
	F6  *wkOP20t6
	F7  *wkOP20t7
	F8  *wkOP20t8
	F9  *wkOP20t9
	F10 *wkOP20t10
	F11 *wkOP20t11
	F12 *wkOP20t12
	F13 *wkOP20t13
	F14 *wkOP20t14
	F15 *wkOP20t15
	F16 *wkOP20t16
	F17 *wkOP20t17
	F18 *wkOP20t18
	F19 *wkOP20t19
}
type wkOP20t2 struct {
	F3  *wkOP20t3
	F4  *wkOP20t4
	F5  *wkOP20t5
	F6  *wkOP20t6
	F7  *wkOP20t7
	F8  *wkOP20t8
	F9  *wkOP20t9
	F10 *wkOP20t10
	F11 *wkOP20t11
	F12 *wkOP20t12
	F13 *wkOP20t13
	F14 *wkOP20t14
	F15 *wkOP20t15
	F16 *wkOP20t16
	F17 *wkOP20t17
	F18 *wkOP20t18
	F19 *wkOP20t19
}
type wkOP20t3 struct {
	F4  *wkOP20t4
	F5  *wkOP20t5
	F6  *wkOP20t6
	F7  *wkOP20t7
	F8  *wkOP20t8
	F9  *wkOP20t9
	F10 *wkOP20t10
	F11 *wkOP20t11
	F12 *wkOP20t12
	F13 *wkOP20t13
	F14 *wkOP20t14
	F15 *wkOP20t15
	F16 *wkOP20t16
	F17 *wkOP20t17
	F18 *wkOP20t18
	F19 *wkOP20t19
}
type wkOP20t4 struct {
	F5  *wkOP20t5
	F6  *wkOP20t6
	F7  *wkOP20t7
	F8  *wkOP20t8
	F9  *wkOP20t9
	F10 *wkOP20t10
	F11 *wkOP20t11
	F12 *wkOP20t12
	F13 *wkOP20t13
	F14 *wkOP20t14
	F15 *wkOP20t15
	F16 *wkOP20t16
	F17 *wkOP20t17
	F18 *wkOP20t18
	F19 *wkOP20t19
}
type wkOP20t5 struct {
	F6  *wkOP20t6
	F7  *wkOP20t7
	F8  *wkOP20t8
	F9  *wkOP20t9
	F10 *wkOP20t10
	F11 *wkOP20t11
	F12 *wkOP20t12
	F13 *wkOP20t13
	F14 *wkOP20t14
	F15 *wkOP20t15
	F16 *wkOP20t16
	F17 *wkOP20t17
	F18 *wkOP20t18
	F19 *wkOP20t19
}
type wkOP20t6 struct {
	F7  *wkOP20t7
	F8  *wkOP20t8
	F9  *wkOP20t9
	F10 *wkOP20t10
	F11 *wkOP20t11
	F12 *wkOP20t12
	F13 *wkOP20t13
	F14 *wkOP20t14
	F15 *wkOP20t15
	F16 *wkOP20t16
	F17 *wkOP20t17
	F18 *wkOP20t18
	F19 *wkOP20t19
}
type wkOP20t7 struct {
	F8  *wkOP20t8
	F9  *wkOP20t9
	F10 *wkOP20t10
	F11 *wkOP20t11
	F12 *wkOP20t12
	F13 *wkOP20t13
	F14 *wkOP20t14
	F15 *wkOP20t15
	F16 *wkOP20t16
	F17 *wkOP20t17
	F18 *wkOP20t18
	F19 *wkOP20t19
}
type wkOP20t8 struct {
	F9  *wkOP20t9
	F10 *wkOP20t10
	F11 *wkOP20t11
	F12 *wkOP20t12
	F13 *wkOP20t13
	F14 *wkOP20t14
	F15 *wkOP20t15
	F16 *wkOP20t16
	F17 *wkOP20t17
	F18 *wkOP20t18
	F19 *wkOP20t19
}
type wkOP20t9 struct {
	F10 *wkOP20t10
	F11 *wkOP20t11
	F12 *wkOP20t12
	F13 *wkOP20t13
	F14 *wkOP20t14
	F15 *wkOP20t15
	F16 *wkOP20t16
	F17 *wkOP20t17
	F18 *wkOP20t18
	F19 *wkOP20t19
}
type wkOP20t10 struct {
	F11 *wkOP20t11
	F12 *wkOP20t12
	F13 *wkOP20t13
	F14 *wkOP20t14
	F15 *wkOP20t15
	F16 *wkOP20t16
	F17 *wkOP20t17
	F18 *wkOP20t18
	F19 *wkOP20t19
}
type wkOP20t11 struct {
	F12 *wkOP20t12
	F13 *wkOP20t13
	F14 *wkOP20t14
	F15 *wkOP20t15
	F16 *wkOP20t16
	F17 *wkOP20t17
	F18 *wkOP20t18
	F19 *wkOP20t19
}
type wkOP20t12 struct {
	F13 *wkOP20t13
	F14 *wkOP20t14
	F15 *wkOP20t15
	F16 *wkOP20t16
	F17 *wkOP20t17
	F18 *wkOP20t18
	F19 *wkOP20t19
}
type wkOP20t13 struct {
	F14 *wkOP20t14
	F15 *wkOP20t15
	F16 *wkOP20t16
	F17 *wkOP20t17
	F18 *wkOP20t18
	F19 *wkOP20t19
}
type wkOP20t14 struct {
	F15 *wkOP20t15
	F16 *wkOP20t16
	F17 *wkOP20t17
	F18 *wkOP20t18
	F19 *wkOP20t19
}
type wkOP20t15 struct {
	F16 *wkOP20t16
	F17 *wkOP20t17
	F18 *wkOP20t18
	F19 *wkOP20t19
}
type wkOP20t16 struct {
	F17 *wkOP20t17
	F18 *wkOP20t18
	F19 *wkOP20t19
}
type wkOP20t17 struct {
	F18 *wkOP20t18
	F19 *wkOP20t19
}
type wkOP20t18 struct{ F19 *wkOP20t19 }
type wkOP20t19 struct{ F0 *wkOP20t0 }
type wkOP24t0 struct {
	F1  *wkOP24t1
	F2  *wkOP24t2
	F3  *wkOP24t3
	F4  *wkOP24t4
	F5  *wkOP24t5
	F6  *wkOP24t6
	F7  *wkOP24t7
	F8  *wkOP24t8
	F9  *wkOP24t9
	F10 *wkOP24t10
	F11 *wkOP24t11
	F12 *wkOP24t12
	F13 *wkOP24t13
	F14 *wkOP24t14
	F15 *wkOP24t15
	F16 *wkOP24t16
	F17 *wkOP24t17
	F18 *wkOP24t18
	F19 *wkOP24t19
	F20 *wkOP24t20
	F21 *wkOP24t21
	F22 *wkOP24t22
	F23 *wkOP24t23
}
type wkOP24t1 struct {
	F2  *wkOP24t2
	F3  *wkOP24t3
	F4  *wkOP24t4
	F5  *wkOP24t5
	F6  *wkOP24t6
	F7  *wkOP24t7
	F8  *wkOP24t8
	F9  *wkOP24t9
	F10 *wkOP24t10
	F11 *wkOP24t11
	F12 *wkOP24t12
	F13 *wkOP24t13
	F14 *wkOP24t14
	F15 *wkOP24t15
	F16 *wkOP24t16
	F17 *wkOP24t17
	F18 *wkOP24t18
	F19 *wkOP24t19
	F20 *wkOP24t20
	F21 *wkOP24t21
	F22 *wkOP24t22
	F23 *wkOP24t23
}
type wkOP24t2 struct {
	F3  *wkOP24t3
	F4  *wkOP24t4
	F5  *wkOP24t5
	F6  *wkOP24t6
	F7  *wkOP24t7
	F8  *wkOP24t8
	F9  *wkOP24t9
	F10 *wkOP24t10
	F11 *wkOP24t11
	F12 *wkOP24t12
	F13 *wkOP24t13
	F14 *wkOP24t14
	F15 *wkOP24t15
	F16 *wkOP24t16
	F17 *wkOP24t17
	F18 *wkOP24t18
	F19 *wkOP24t19
	F20 *wkOP24t20
	F21 *wkOP24t21
	F22 *wkOP24t22
	F23 *wkOP24t23
}
type wkOP24t3 struct {
	F4  *wkOP24t4
	F5  *wkOP24t5
	F6  *wkOP24t6
	F7  *wkOP24t7
	F8  *wkOP24t8
	F9  *wkOP24t9
	F10 *wkOP24t10
	F11 *wkOP24t11
	F12 *wkOP24t12
	F13 *wkOP24t13
	F14 *wkOP24t14
	F15 *wkOP24t15
	F16 *wkOP24t16
	F17 *wkOP24t17
	F18 *wkOP24t18
	F19 *wkOP24t19
	F20 *wkOP24t20
	F21 *wkOP24t21
	F22 *wkOP24t22
	F23 *wkOP24t23
}
type wkOP24t4 struct {
	F5  *wkOP24t5
	F6  *wkOP24t6
	F7  *wkOP24t7
	F8  *wkOP24t8
	F9  *wkOP24t9
	F10 *wkOP24t10
	F11 *wkOP24t11
	F12 *wkOP24t12
	F13 *wkOP24t13
	F14 *wkOP24t14
	F15 *wkOP24t15
	F16 *wkOP24t16
	F17 *wkOP24t17
	F18 *wkOP24t18
	F19 *wkOP24t19
	F20 *wkOP24t20
	F21 *wkOP24t21
	F22 *wkOP24t22
	F23 *wkOP24t23
}
type wkOP24t5 struct {
	F6  *wkOP24t6
	F7  *wkOP24t7
	F8  *wkOP24t8
	F9  *wkOP24t9
	F10 *wkOP24t10
	F11 *wkOP24t11
	F12 *wkOP24t12
	F13 *wkOP24t13
	F14 *wkOP24t14
	F15 *wkOP24t15
	F16 *wkOP24t16
	F17 *wkOP24t17
	F18 *wkOP24t18
	F19 *wkOP24t19
	F20 *wkOP24t20
	F21 *wkOP24t21
	F22 *wkOP24t22
	F23 *wkOP24t23
}
type wkOP24t6 struct {
	F7  *wkOP24t7
	F8  *wkOP24t8
	F9  *wkOP24t9
	F10 *wkOP24t10
	F11 *wkOP24t11
	F12 *wkOP24t12
	F13 *wkOP24t13
	F14 *wkOP24t14
	F15 *wkOP24t15
	F16 *wkOP24t16
	F17 *wkOP24t17
	F18 *wkOP24t18
	F19 *wkOP24t19
	F20 *wkOP24t20
	F21 *wkOP24t21
	F22 *wkOP24t22
	F23 *wkOP24t23
}
type wkOP24t7 struct {
	F8  *wkOP24t8
	F9  *wkOP24t9
	F10 *wkOP24t10
	F11 *wkOP24t11
	F12 *wkOP24t12
	F13 *wkOP24t13
	F14 *wkOP24t14
	F15 *wkOP24t15
	F16 *wkOP24t16
	F17 *wkOP24t17
	F18 *wkOP24t18
	F19 *wkOP24t19
	F20 *wkOP24t20
	F21 *wkOP24t21
	F22 *wkOP24t22
	F23 *wkOP24t23
}
type wkOP24t8 struct {
	F9  *wkOP24t9
	F10 *wkOP24t10
	F11 *wkOP24t11
	F12 *wkOP24t12
	F13 *wkOP24t13
	F14 *wkOP24t14
	F15 *wkOP24t15
	F16 *wkOP24t16
	F17 *wkOP24t17
	F18 *wkOP24t18
	F19 *wkOP24t19
	F20 *wkOP24t20
	F21 *wkOP24t21
	F22 *wkOP24t22
	F23 *wkOP24t23
}
type wkOP24t9 struct {
	F10 *wkOP24t10
	F11 *wkOP24t11
	F12 *wkOP24t12
	F13 *wkOP24t13
	F14 *wkOP24t14
	F15 *wkOP24t15
	F16 *wkOP24t16
	F17 *wkOP24t17
	F18 *wkOP24t18
	F19 *wkOP24t19
	F20 *wkOP24t20
	F21 *wkOP24t21
	F22 *wkOP24t22
	F23 *wkOP24t23
}
type wkOP24t10 struct {
	F11 *wkOP24t11
	F12 *wkOP24t12
	F13 *wkOP24t13
	F14 *wkOP24t14
	F15 *wkOP24t15
	F16 *wkOP24t16
	F17 *wkOP24t17
	F18 *wkOP24t18
	F19 *wkOP24t19
	F20 *wkOP24t20
	F21 *wkOP24t21
	F22 *wkOP24t22
	F23 *wkOP24t23
}
type wkOP24t11 struct {
	F12 *wkOP24t12
	F13 *wkOP24t13
	F14 *wkOP24t14
	F15 *wkOP24t15
	F16 *wkOP24t16
	F17 *wkOP24t17
	F18 *wkOP24t18
	F19 *wkOP24t19
	F20 *wkOP24t20
	F21 *wkOP24t21
	F22 *wkOP24t22
	F23 *wkOP24t23
}
type wkOP24t12 struct {
	F13 *wkOP24t13
	F14 *wkOP24t14
	F15 *wkOP24t15
	F16 *wkOP24t16
	F17 *wkOP24t17
	F18 *wkOP24t18
	F19 *wkOP24t19
	F20 *wkOP24t20
	F21 *wkOP24t21
	F22 *wkOP24t22
	F23 *wkOP24t23
}
type wkOP24t13 struct {
	F14 *wkOP24t14
	F15 *wkOP24t15
	F16 *wkOP24t16
	F17 *wkOP24t17
	F18 *wkOP24t18
	F19 *wkOP24t19
	F20 *wkOP24t20
	F21 *wkOP24t21
	F22 *wkOP24t22
	F23 *wkOP24t23
}
type wkOP24t14 struct {
	F15 *wkOP24t15
	F16 *wkOP24t16
	F17 *wkOP24t17
	F18 *wkOP24t18
	F19 *wkOP24t19
	F20 *wkOP24t20
	F21 *wkOP24t21
	F22 *wkOP24t22
	F23 *wkOP24t23
}
type wkOP24t15 struct {
	F16 *wkOP24t16
	F17 *wkOP24t17
	F18 *wkOP24t18
	F19 *wkOP24t19
	F20 *wkOP24t20
	F21 *wkOP24t21
	F22 *wkOP24t22
	F23 *wkOP24t23
}
type wkOP24t16 struct {
	F17 *wkOP24t17
	F18 *wkOP24t18
	F19 *wkOP24t19
	F20 *wkOP24t20
	F21 *wkOP24t21
	F22 *wkOP24t22
	F23 *wkOP24t23
}
type wkOP24t17 struct {
	F18 *wkOP24t18
	F19 *wkOP24t19
	F20 *wkOP24t20
	F21 *wkOP24t21
	F22 *wkOP24t22
	F23 *wkOP24t23
}
type wkOP24t18 struct {
	F19 *wkOP24t19
	F20 *wkOP24t20
	F21 *wkOP24t21
	F22 *wkOP24t22
	F23 *wkOP24t23
}
type wkOP24t19 struct {
	F20 *wkOP24t20
	F21 *wkOP24t21
	F22 *wkOP24t22
	F23 *wkOP24t23
}
type wkOP24t20 struct {
	F21 *wkOP24t21
	F22 *wkOP24t22
	F23 *wkOP24t23
}
type wkOP24t21 struct {
	F22 *wkOP24t22
	F23 *wkOP24t23
}
type wkOP24t22 struct{ F23 *wkOP24t23 }
type wkOP24t23 struct{ F0 *wkOP24t0 }
type wkOP40t0 struct {
	F1  *wkOP40t1
	F2  *wkOP40t2
	F3  *wkOP40t3
	F4  *wkOP40t4
	F5  *wkOP40t5
	F6  *wkOP40t6
	F7  *wkOP40t7
	F8  *wkOP40t8
	F9  *wkOP40t9
	F10 *wkOP40t10
	F11 *wkOP40t11
	F12 *wkOP40t12
	F13 *wkOP40t13
	F14 *wkOP40t14
	F15 *wkOP40t15
	F16 *wkOP40t16
	F17 *wkOP40t17
	F18 *wkOP40t18
	F19 *wkOP40t19
	F20 *wkOP40t20
	F21 *wkOP40t21
	F22 *wkOP40t22
	F23 *wkOP40t23
	F24 *wkOP40t24
	F25 *wkOP40t25
	F26 *wkOP40t26
	F27 *wkOP40t27
	F28 *wkOP40t28
	F29 *wkOP40t29
	F30 *wkOP40t30
	F31 *wkOP40t31
	F32 *wkOP40t32
	F33 *wkOP40t33
	F34 *wkOP40t34
	F35 *wkOP40t35
	F36 *wkOP40t36
	F37 *wkOP40t37
	F38 *wkOP40t38
	F39 *wkOP40t39
}
type wkOP40t1 struct {
	F2  *wkOP40t2
	F3  *wkOP40t3
	F4  *wkOP40t4
	F5  *wkOP40t5
	F6  *wkOP40t6
	F7  *wkOP40t7
	F8  *wkOP40t8
	F9  *wkOP40t9
	F10 *wkOP40t10
	F11 *wkOP40t11
	F12 *wkOP40t12
	F13 *wkOP40t13
	F14 *wkOP40t14
	F15 *wkOP40t15
	F16 *wkOP40t16
	F17 *wkOP40t17
	F18 *wkOP40t18
	F19 *wkOP40t19
	F20 *wkOP40t20
	F21 *wkOP40t21
	F22 *wkOP40t22
	F23 *wkOP40t23
	F24 *wkOP40t24
	F25 *wkOP40t25
	F26 *wkOP40t26
	F27 *wkOP40t27
	F28 *wkOP40t28
	F29 *wkOP40t29
	F30 *wkOP40t30
	F31 *wkOP40t31
	F32 *wkOP40t32
	F33 *wkOP40t33
	F34 *wkOP40t34
	F35 *wkOP40t35
	F36 *wkOP40t36
	F37 *wkOP40t37
	F38 *wkOP40t38
	F39 *wkOP40t39
}
type wkOP40t2 struct {
	F3  *wkOP40t3
	F4  *wkOP40t4
	F5  *wkOP40t5
	F6  *wkOP40t6
	F7  *wkOP40t7
	F8  *wkOP40t8
	F9  *wkOP40t9
	F10 *wkOP40t10
	F11 *wkOP40t11
	F12 *wkOP40t12
	F13 *wkOP40t13
	F14 *wkOP40t14
	F15 *wkOP40t15
	F16 *wkOP40t16
	F17 *wkOP40t17
	F18 *wkOP40t18
	F19 *wkOP40t19
	F20 *wkOP40t20
	F21 *wkOP40t21
	F22 *wkOP40t22
	F23 *wkOP40t23
	F24 *wkOP40t24
	F25 *wkOP40t25
	F26 *wkOP40t26
	F27 *wkOP40t27
	F28 *wkOP40t28
	F29 *wkOP40t29
	F30 *wkOP40t30
	F31 *wkOP40t31
	F32 *wkOP40t32
	F33 *wkOP40t33
	F34 *wkOP40t34
	F35 *wkOP40t35
	F36 *wkOP40t36
	F37 *wkOP40t37
	F38 *wkOP40t38
	F39 *wkOP40t39
}
type wkOP40t3 struct {
	F4  *wkOP40t4
	F5  *wkOP40t5
	F6  *wkOP40t6
	F7  *wkOP40t7
	F8  *wkOP40t8
	F9  *wkOP40t9
	F10 *wkOP40t10
	F11 *wkOP40t11
	F12 *wkOP40t12
	F13 *wkOP40t13
	F14 *wkOP40t14
	F15 *wkOP40t15
	F16 *wkOP40t16
	F17 *wkOP40t17
	F18 *wkOP40t18
	F19 *wkOP40t19
	F20 *wkOP40t20
	F21 *wkOP40t21
	F22 *wkOP40t22
	F23 *wkOP40t23
	F24 *wkOP40t24
	F25 *wkOP40t25
	F26 *wkOP40t26
	F27 *wkOP40t27
	F28 *wkOP40t28
	F29 *wkOP40t29
	F30 *wkOP40t30
	F31 *wkOP40t31
	F32 *wkOP40t32
	F33 *wkOP40t33
	F34 *wkOP40t34
	F35 *wkOP40t35
	F36 *wkOP40t36
	F37 *wkOP40t37
	F38 *wkOP40t38
	F39 *wkOP40t39
}
type wkOP40t4 struct {
	F5  *wkOP40t5
	F6  *wkOP40t6
	F7  *wkOP40t7
	F8  *wkOP40t8
	F9  *wkOP40t9
	F10 *wkOP40t10
	F11 *wkOP40t11
	F12 *wkOP40t12
	F13 *wkOP40t13
	F14 *wkOP40t14
	F15 *wkOP40t15
	F16 *wkOP40t16
	F17 *wkOP40t17
	F18 *wkOP40t18
	F19 *wkOP40t19
	F20 *wkOP40t20
	F21 *wkOP40t21
	F22 *wkOP40t22
	F23 *wkOP40t23
	F24 *wkOP40t24
	F25 *wkOP40t25
	F26 *wkOP40t26
	F27 *wkOP40t27
	F28 *wkOP40t28
	F29 *wkOP40t29
	F30 *wkOP40t30
	F31 *wkOP40t31
	F32 *wkOP40t32
	F33 *wkOP40t33
	F34 *wkOP40t34
	F35 *wkOP40t35
	F36 *wkOP40t36
	F37 *wkOP40t37
	F38 *wkOP40t38
	F39 *wkOP40t39
}
type wkOP40t5 struct {
	F6  *wkOP40t6
	F7  *wkOP40t7
	F8  *wkOP40t8
	F9  *wkOP40t9
	F10 *wkOP40t10
	F11 *wkOP40t11
	F12 *wkOP40t12
	F13 *wkOP40t13
	F14 *wkOP40t14
	F15 *wkOP40t15
	F16 *wkOP40t16
	F17 *wkOP40t17
	F18 *wkOP40t18
	F19 *wkOP40t19
	F20 *wkOP40t20
	F21 *wkOP40t21
	F22 *wkOP40t22
	F23 *wkOP40t23
	F24 *wkOP40t24
	F25 *wkOP40t25
	F26 *wkOP40t26
	F27 *wkOP40t27
	F28 *wkOP40t28
	F29 *wkOP40t29
	F30 *wkOP40t30
	F31 *wkOP40t31
	F32 *wkOP40t32
	F33 *wkOP40t33
	F34 *wkOP40t34
	F35 *wkOP40t35
	F36 *wkOP40t36
	F37 *wkOP40t37
	F38 *wkOP40t38
	F39 *wkOP40t39
}
type wkOP40t6 struct {
	F7  *wkOP40t7
	F8  *wkOP40t8
	F9  *wkOP40t9
	F10 *wkOP40t10
	F11 *wkOP40t11
	F12 *wkOP40t12
	F13 *wkOP40t13
	F14 *wkOP40t14
	F15 *wkOP40t15
	F16 *wkOP40t16
	F17 *wkOP40t17
	F18 *wkOP40t18
	F19 *wkOP40t19
	F20 *wkOP40t20
	F21 *wkOP40t21
	F22 *wkOP40t22
	F23 *wkOP40t23
	F24 *wkOP40t24
	F25 *wkOP40t25
	F26 *wkOP40t26
	F27 *wkOP40t27
	F28 *wkOP40t28
	F29 *wkOP40t29
	F30 *wkOP40t30
	F31 *wkOP40t31
	F32 *wkOP40t32
	F33 *wkOP40t33
	F34 *wkOP40t34
	F35 *wkOP40t35
	F36 *wkOP40t36
	F37 *wkOP40t37
	F38 *wkOP40t38
	F39 *wkOP40t39
}
type wkOP40t7 struct {
	F8  *wkOP40t8
	F9  *wkOP40t9
	F10 *wkOP40t10
	F11 *wkOP40t11
	F12 *wkOP40t12
	F13 *wkOP40t13
	F14 *wkOP40t14
	F15 *wkOP40t15
	F16 *wkOP40t16
	F17 *wkOP40t17
	F18 *wkOP40t18
	F19 *wkOP40t19
	F20 *wkOP40t20
	F21 *wkOP40t21
	F22 *wkOP40t22
	F23 *wkOP40t23
	F24 *wkOP40t24
	F25 *wkOP40t25
	F26 *wkOP40t26
	F27 *wkOP40t27
	F28 *wkOP40t28
	F29 *wkOP40t29
	F30 *wkOP40t30
	F31 *wkOP40t31
	F32 *wkOP40t32
	F33 *wkOP40t33
	F34 *wkOP40t34
	F35 *wkOP40t35
	F36 *wkOP40t36
	F37 *wkOP40t37
	F38 *wkOP40t38
	F39 *wkOP40t39
}
type wkOP40t8 struct {
	F9  *wkOP40t9
	F10 *wkOP40t10
	F11 *wkOP40t11
	F12 *wkOP40t12
	F13 *wkOP40t13
	F14 *wkOP40t14
	F15 *wkOP40t15
	F16 *wkOP40t16
	F17 *wkOP40t17
	F18 *wkOP40t18
	F19 *wkOP40t19
	F20 *wkOP40t20
	F21 *wkOP40t21
	F22 *wkOP40t22
	F23 *wkOP40t23
	F24 *wkOP40t24
	F25 *wkOP40t25
	F26 *wkOP40t26
	F27 *wkOP40t27
	F28 *wkOP40t28
	F29 *wkOP40t29
	F30 *wkOP40t30
	F31 *wkOP40t31
	F32 *wkOP40t32
	F33 *wkOP40t33
	F34 *wkOP40t34
	F35 *wkOP40t35
	F36 *wkOP40t36
	F37 *wkOP40t37
	F38 *wkOP40t38
	F39 *wkOP40t39
}
type wkOP40t9 struct {
	F10 *wkOP40t10
	F11 *wkOP40t11
	F12 *wkOP40t12
	F13 *wkOP40t13
	F14 *wkOP40t14
	F15 *wkOP40t15
	F16 *wkOP40t16
	F17 *wkOP40t17
	F18 *wkOP40t18
	F19 *wkOP40t19
	F20 *wkOP40t20
	F21 *wkOP40t21
	F22 *wkOP40t22
	F23 *wkOP40t23
	F24 *wkOP40t24
	F25 *wkOP40t25
	F26 *wkOP40t26
	F27 *wkOP40t27
	F28 *wkOP40t28
	F29 *wkOP40t29
	F30 *wkOP40t30
	F31 *wkOP40t31
	F32 *wkOP40t32
	F33 *wkOP40t33
	F34 *wkOP40t34
	F35 *wkOP40t35
	F36 *wkOP40t36
	F37 *wkOP40t37
	F38 *wkOP40t38
	F39 *wkOP40t39
}
type wkOP40t10 struct {
	F11 *wkOP40t11
	F12 *wkOP40t12
	F13 *wkOP40t13
	F14 *wkOP40t14
	F15 *wkOP40t15
	F16 *wkOP40t16
	F17 *wkOP40t17
	F18 *wkOP40t18
	F19 *wkOP40t19
	F20 *wkOP40t20
	F21 *wkOP40t21
	F22 *wkOP40t22
	F23 *wkOP40t23
	F24 *wkOP40t24
	F25 *wkOP40t25
	F26 *wkOP40t26
	F27 *wkOP40t27
	F28 *wkOP40t28
	F29 *wkOP40t29
	F30 *wkOP40t30
	F31 *wkOP40t31
	F32 *wkOP40t32
	F33 *wkOP40t33
	F34 *wkOP40t34
	F35 *wkOP40t35
	F36 *wkOP40t36
	F37 *wkOP40t37
	F38 *wkOP40t38
	F39 *wkOP40t39
}
type wkOP40t11 struct {
	F12 *wkOP40t12
	F13 *wkOP40t13
	F14 *wkOP40t14
	F15 *wkOP40t15
	F16 *wkOP40t16
	F17 *wkOP40t17
	F18 *wkOP40t18
	F19 *wkOP40t19
	F20 *wkOP40t20
	F21 *wkOP40t21
	F22 *wkOP40t22
	F23 *wkOP40t23
	F24 *wkOP40t24
	F25 *wkOP40t25
	F26 *wkOP40t26
	F27 *wkOP40t27
	F28 *wkOP40t28
	F29 *wkOP40t29
	F30 *wkOP40t30
	F31 *wkOP40t31
	F32 *wkOP40t32
	F33 *wkOP40t33
	F34 *wkOP40t34
	F35 *wkOP40t35
	F36 *wkOP40t36
	F37 *wkOP40t37
	F38 *wkOP40t38
	F39 *wkOP40t39
}
type wkOP40t12 struct {
	F13 *wkOP40t13
	F14 *wkOP40t14
	F15 *wkOP40t15
	F16 *wkOP40t16
	F17 *wkOP40t17
	F18 *wkOP40t18
	F19 *wkOP40t19
	F20 *wkOP40t20
	F21 *wkOP40t21
	F22 *wkOP40t22
	F23 *wkOP40t23
	F24 *wkOP40t24
	F25 *wkOP40t25
	F26 *wkOP40t26
	F27 *wkOP40t27
	F28 *wkOP40t28
	F29 *wkOP40t29
	F30 *wkOP40t30
	F31 *wkOP40t31
	F32 *wkOP40t32
	F33 *wkOP40t33
	F34 *wkOP40t34
	F35 *wkOP40t35
	F36 *wkOP40t36
	F37 *wkOP40t37
	F38 *wkOP40t38
	F39 *wkOP40t39
}
type wkOP40t13 struct {
	F14 *wkOP40t14
	F15 *wkOP40t15
	F16 *wkOP40t16
	F17 *wkOP40t17
	F18 *wkOP40t18
	F19 *wkOP40t19
	F20 *wkOP40t20
	F21 *wkOP40t21
	F22 *wkOP40t22
	F23 *wkOP40t23
	F24 *wkOP40t24
	F25 *wkOP40t25
	F26 *wkOP40t26
	F27 *wkOP40t27
	F28 *wkOP40t28
	F29 *wkOP40t29
	F30 *wkOP40t30
	F31 *wkOP40t31
	F32 *wkOP40t32
	F33 *wkOP40t33
	F34 *wkOP40t34
	F35 *wkOP40t35
	F36 *wkOP40t36
	F37 *wkOP40t37
	F38 *wkOP40t38
	F39 *wkOP40t39
}
type wkOP40t14 struct {
	F15 *wkOP40t15
	F16 *wkOP40t16
	F17 *wkOP40t17
	F18 *wkOP40t18
	F19 *wkOP40t19
	F20 *wkOP40t20
	F21 *wkOP40t21
	F22 *wkOP40t22
	F23 *wkOP40t23
	F24 *wkOP40t24
	F25 *wkOP40t25
	F26 *wkOP40t26
	F27 *wkOP40t27
	F28 *wkOP40t28
	F29 *wkOP40t29
	F30 *wkOP40t30
	F31 *wkOP40t31
	F32 *wkOP40t32
	F33 *wkOP40t33
	F34 *wkOP40t34
	F35 *wkOP40t35
	F36 *wkOP40t36
	F37 *wkOP40t37
	F38 *wkOP40t38
	F39 *wkOP40t39
}
type wkOP40t15 struct {
	F16 *wkOP40t16
	F17 *wkOP40t17
	F18 *wkOP40t18
	F19 *wkOP40t19
	F20 *wkOP40t20
	F21 *wkOP40t21
	F22 *wkOP40t22
	F23 *wkOP40t23
	F24 *wkOP40t24
	F25 *wkOP40t25
	F26 *wkOP40t26
	F27 *wkOP40t27
	F28 *wkOP40t28
	F29 *wkOP40t29
	F30 *wkOP40t30
	F31 *wkOP40t31
	F32 *wkOP40t32
	F33 *wkOP40t33
	F34 *wkOP40t34
	F35 *wkOP40t35
	F36 *wkOP40t36
	F37 *wkOP40t37
	F38 *wkOP40t38
	F39 *wkOP40t39
}
type wkOP40t16 struct {
	F17 *wkOP40t17
	F18 *wkOP40t18
	F19 *wkOP40t19
	F20 *wkOP40t20
	F21 *wkOP40t21
	F22 *wkOP40t22
	F23 *wkOP40t23
	F24 *wkOP40t24
	F25 *wkOP40t25
	F26 *wkOP40t26
	F27 *wkOP40t27
	F28 *wkOP40t28
	F29 *wkOP40t29
	F30 *wkOP40t30
	F31 *wkOP40t31
	F32 *wkOP40t32
	F33 *wkOP40t33
	F34 *wkOP40t34
	F35 *wkOP40t35
	F36 *wkOP40t36
	F37 *wkOP40t37
	F38 *wkOP40t38
	F39 *wkOP40t39
}
type wkOP40t17 struct {
	F18 *wkOP40t18
	F19 *wkOP40t19
	F20 *wkOP40t20
	F21 *wkOP40t21
	F22 *wkOP40t22
	F23 *wkOP40t23
	F24 *wkOP40t24
	F25 *wkOP40t25
	F26 *wkOP40t26
	F27 *wkOP40t27
	F28 *wkOP40t28
	F29 *wkOP40t29
	F30 *wkOP40t30
	F31 *wkOP40t31
	F32 *wkOP40t32
	F33 *wkOP40t33
	F34 *wkOP40t34
	F35 *wkOP40t35
	F36 *wkOP40t36
	F37 *wkOP40t37
	F38 *wkOP40t38
	F39 *wkOP40t39
}
type wkOP40t18 struct {
	F19 *wkOP40t19
	F20 *wkOP40t20
	F21 *wkOP40t21
	F22 *wkOP40t22
	F23 *wkOP40t23
	F24 *wkOP40t24
	F25 *wkOP40t25
	F26 *wkOP40t26
	F27 *wkOP40t27
	F28 *wkOP40t28
	F29 *wkOP40t29
	F30 *wkOP40t30
	F31 *wkOP40t31
	F32 *wkOP40t32
	F33 *wkOP40t33
	F34 *wkOP40t34
	F35 *wkOP40t35
	F36 *wkOP40t36
	F37 *wkOP40t37
	F38 *wkOP40t38
	F39 *wkOP40t39
}
type wkOP40t19 struct {
	F20 *wkOP40t20
	F21 *wkOP40t21
	F22 *wkOP40t22
	F23 *wkOP40t23
	F24 *wkOP40t24
	F25 *wkOP40t25
	F26 *wkOP40t26
	F27 *wkOP40t27
	F28 *wkOP40t28
	F29 *wkOP40t29
	F30 *wkOP40t30
	F31 *wkOP40t31
	F32 *wkOP40t32
	F33 *wkOP40t33
	F34 *wkOP40t34
	F35 *wkOP40t35
	F36 *wkOP40t36
	F37 *wkOP40t37
	F38 *wkOP40t38
	F39 *wkOP40t39
}
type wkOP40t20 struct {
	F21 *wkOP40t21
	F22 *wkOP40t22
	F23 *wkOP40t23
	F24 *wkOP40t24
	F25 *wkOP40t25
	F26 *wkOP40t26
	F27 *wkOP40t27
	F28 *wkOP40t28
	F29 *wkOP40t29
	F30 *wkOP40t30
	F31 *wkOP40t31
	F32 *wkOP40t32
	F33 *wkOP40t33
	F34 *wkOP40t34
	F35 *wkOP40t35
	F36 *wkOP40t36
	F37 *wkOP40t37
	F38 *wkOP40t38
	F39 *wkOP40t39
}
type wkOP40t21 struct {
	F22 *wkOP40t22
	F23 *wkOP40t23
	F24 *wkOP40t24
	F25 *wkOP40t25
	F26 *wkOP40t26
	F27 *wkOP40t27
	F28 *wkOP40t28
	F29 *wkOP40t29
	F30 *wkOP40t30
	F31 *wkOP40t31
	F32 *wkOP40t32
	F33 *wkOP40t33
	F34 *wkOP40t34
	F35 *wkOP40t35
	F36 *wkOP40t36
	F37 *wkOP40t37
	F38 *wkOP40t38
	F39 *wkOP40t39
}
type wkOP40t22 struct {
	F23 *wkOP40t23
	F24 *wkOP40t24
	F25 *wkOP40t25
	F26 *wkOP40t26
	F27 *wkOP40t27
	F28 *wkOP40t28
	F29 *wkOP40t29
	F30 *wkOP40t30
	F31 *wkOP40t31
	F32 *wkOP40t32
	F33 *wkOP40t33
	F34 *wkOP40t34
	F35 *wkOP40t35
	F36 *wkOP40t36
	F37 *wkOP40t37
	F38 *wkOP40t38
	F39 *wkOP40t39
}
type wkOP40t23 struct {
	F24 *wkOP40t24
	F25 *wkOP40t25
	F26 *wkOP40t26
	F27 *wkOP40t27
	F28 *wkOP40t28
	F29 *wkOP40t29
	F30 *wkOP40t30
	F31 *wkOP40t31
	F32 *wkOP40t32
	F33 *wkOP40t33
	F34 *wkOP40t34
	F35 *wkOP40t35
	F36 *wkOP40t36
	F37 *wkOP40t37
	F38 *wkOP40t38
	F39 *wkOP40t39
}
type wkOP40t24 struct {
	F25 *wkOP40t25
	F26 *wkOP40t26
	F27 *wkOP40t27
	F28 *wkOP40t28
	F29 *wkOP40t29
	F30 *wkOP40t30
	F31 *wkOP40t31
	F32 *wkOP40t32
	F33 *wkOP40t33
	F34 *wkOP40t34
	F35 *wkOP40t35
	F36 *wkOP40t36
	F37 *wkOP40t37
	F38 *wkOP40t38
	F39 *wkOP40t39
}
type wkOP40t25 struct {
	F26 *wkOP40t26
	F27 *wkOP40t27
	F28 *wkOP40t28
	F29 *wkOP40t29
	F30 *wkOP40t30
	F31 *wkOP40t31
	F32 *wkOP40t32
	F33 *wkOP40t33
	F34 *wkOP40t34
	F35 *wkOP40t35
	F36 *wkOP40t36
	F37 *wkOP40t37
	F38 *wkOP40t38
	F39 *wkOP40t39
}
type wkOP40t26 struct {
	F27 *wkOP40t27
	F28 *wkOP40t28
	F29 *wkOP40t29
	F30 *wkOP40t30
	F31 *wkOP40t31
	F32 *wkOP40t32
	F33 *wkOP40t33
	F34 *wkOP40t34
	F35 *wkOP40t35
	F36 *wkOP40t36
	F37 *wkOP40t37
	F38 *wkOP40t38
	F39 *wkOP40t39
}
type wkOP40t27 struct {
	F28 *wkOP40t28
	F29 *wkOP40t29
	F30 *wkOP40t30
	F31 *wkOP40t31
	F32 *wkOP40t32
	F33 *wkOP40t33
	F34 *wkOP40t34
	F35 *wkOP40t35
	F36 *wkOP40t36
	F37 *wkOP40t37
	F38 *wkOP40t38
	F39 *wkOP40t39
}
type wkOP40t28 struct {
	F29 *wkOP40t29
	F30 *wkOP40t30
	F31 *wkOP40t31
	F32 *wkOP40t32
	F33 *wkOP40t33
	F34 *wkOP40t34
	F35 *wkOP40t35
	F36 *wkOP40t36
	F37 *wkOP40t37
	F38 *wkOP40t38
	F39 *wkOP40t39
}
type wkOP40t29 struct {
	F30 *wkOP40t30
	F31 *wkOP40t31
	F32 *wkOP40t32
	F33 *wkOP40t33
	F34 *wkOP40t34
	F35 *wkOP40t35
	F36 *wkOP40t36
	F37 *wkOP40t37
	F38 *wkOP40t38
	F39 *wkOP40t39
}
type wkOP40t30 struct {
	F31 *wkOP40t31
	F32 *wkOP40t32
	F33 *wkOP40t33
	F34 *wkOP40t34
	F35 *wkOP40t35
	F36 *wkOP40t36
	F37 *wkOP40t37
	F38 *wkOP40t38
	F39 *wkOP40t39
}
type wkOP40t31 struct {
	F32 *wkOP40t32
	F33 *wkOP40t33
	F34 *wkOP40t34
	F35 *wkOP40t35
	F36 *wkOP40t36
	F37 *wkOP40t37
	F38 *wkOP40t38
	F39 *wkOP40t39
}
type wkOP40t32 struct {
	F33 *wkOP40t33
	F34 *wkOP40t34
	F35 *wkOP40t35
	F36 *wkOP40t36
	F37 *wkOP40t37
	F38 *wkOP40t38
	F39 *wkOP40t39
}
type wkOP40t33 struct {
	F34 *wkOP40t34
	F35 *wkOP40t35
	F36 *wkOP40t36
	F37 *wkOP40t37
	F38 *wkOP40t38
	F39 *wkOP40t39
}
type wkOP40t34 struct {
	F35 *wkOP40t35
	F36 *wkOP40t36
	F37 *wkOP40t37
	F38 *wkOP40t38
	F39 *wkOP40t39
}
type wkOP40t35 struct {
	F36 *wkOP40t36
	F37 *wkOP40t37
	F38 *wkOP40t38
	F39 *wkOP40t39
}
type wkOP40t36 struct {
	F37 *wkOP40t37
	F38 *wkOP40t38
	F39 *wkOP40t39
}
type wkOP40t37 struct {
	F38 *wkOP40t38
	F39 *wkOP40t39
}
type wkOP40t38 struct{ F39 *wkOP40t39 }
type wkOP40t39 struct{ F0 *wkOP40t0 }
type wkCM2t0 struct {
	F0 map[string]wkCM2t0
	F1 map[string]wkCM2t1
}
type wkCM2t1 struct {
	F0 map[string]wkCM2t0
	F1 map[string]wkCM2t1
}
type wkCM4t0 struct {
	F0 map[string]wkCM4t0
	F1 map[string]wkCM4t1
	F2 map[string]wkCM4t2
	F3 map[string]wkCM4t3
}
type wkCM4t1 struct {
	F0 map[string]wkCM4t0
	F1 map[string]wkCM4t1
	F2 map[string]wkCM4t2
	F3 map[string]wkCM4t3
}
type wkCM4t2 struct {
	F0 map[string]wkCM4t0
	F1 map[string]wkCM4t1
	F2 map[string]wkCM4t2
	F3 map[string]wkCM4t3
}
type wkCM4t3 struct {
	F0 map[string]wkCM4t0
	F1 map[string]wkCM4t1
	F2 map[string]wkCM4t2
	F3 map[string]wkCM4t3
}
type wkCM6t0 struct {
	F0 map[string]wkCM6t0
	F1 map[string]wkCM6t1
	F2 map[string]wkCM6t2
	F3 map[string]wkCM6t3
	F4 map[string]wkCM6t4
	F5 map[string]wkCM6t5
}
type wkCM6t1 struct {
	F0 map[string]wkCM6t0
	F1 map[string]wkCM6t1
	F2 map[string]wkCM6t2
	F3 map[string]wkCM6t3
	F4 map[string]wkCM6t4
	F5 map[string]wkCM6t5
}
type wkCM6t2 struct {
	F0 map[string]wkCM6t0
	F1 map[string]wkCM6t1
	F2 map[string]wkCM6t2
	F3 map[string]wkCM6t3
	F4 map[string]wkCM6t4
	F5 map[string]wkCM6t5
}
type wkCM6t3 struct {
	F0 map[string]wkCM6t0
	F1 map[string]wkCM6t1
	F2 map[string]wkCM6t2
	F3 map[string]wkCM6t3
	F4 map[string]wkCM6t4
	F5 map[string]wkCM6t5
}
type wkCM6t4 struct {
	F0 map[string]wkCM6t0
	F1 map[string]wkCM6t1
	F2 map[string]wkCM6t2
	F3 map[string]wkCM6t3
	F4 map[string]wkCM6t4
	F5 map[string]wkCM6t5
}
type wkCM6t5 struct {
	F0 map[string]wkCM6t0
	F1 map[string]wkCM6t1
	F2 map[string]wkCM6t2
	F3 map[string]wkCM6t3
	F4 map[string]wkCM6t4
	F5 map[string]wkCM6t5
}
type wkCM8t0 struct {
	F0 map[string]wkCM8t0
	F1 map[string]wkCM8t1
	F2 map[string]wkCM8t2
	F3 map[string]wkCM8t3
	F4 map[string]wkCM8t4
	F5 map[string]wkCM8t5
	F6 map[string]wkCM8t6
	F7 map[string]wkCM8t7
}
type wkCM8t1 struct {
	F0 map[string]wkCM8t0
	F1 map[string]wkCM8t1
	F2 map[string]wkCM8t2
	F3 map[string]wkCM8t3
	F4 map[string]wkCM8t4
	F5 map[string]wkCM8t5
	F6 map[string]wkCM8t6
	F7 map[string]wkCM8t7
}
type wkCM8t2 struct {
	F0 map[string]wkCM8t0
	F1 map[string]wkCM8t1
	F2 map[string]wkCM8t2
	F3 map[string]wkCM8t3
	F4 map[string]wkCM8t4
	F5 map[string]wkCM8t5
	F6 map[string]wkCM8t6
	F7 map[string]wkCM8t7
}
type wkCM8t3 struct {
	F0 map[string]wkCM8t0
	F1 map[string]wkCM8t1
	F2 map[string]wkCM8t2
	F3 map[string]wkCM8t3
	F4 map[string]wkCM8t4
	F5 map[string]wkCM8t5
	F6 map[string]wkCM8t6
	F7 map[string]wkCM8t7
}
type wkCM8t4 struct {
	F0 map[string]wkCM8t0
	F1 map[string]wkCM8t1
	F2 map[string]wkCM8t2
	F3 map[string]wkCM8t3
	F4 map[string]wkCM8t4
	F5 map[string]wkCM8t5
	F6 map[string]wkCM8t6
	F7 map[string]wkCM8t7
}
type wkCM8t5 struct {
	F0 map[string]wkCM8t0
	F1 map[string]wkCM8t1
	F2 map[string]wkCM8t2
	F3 map[string]wkCM8t3
	F4 map[string]wkCM8t4
	F5 map[string]wkCM8t5
	F6 map[string]wkCM8t6
	F7 map[string]wkCM8t7
}
type wkCM8t6 struct {
	F0 map[string]wkCM8t0
	F1 map[string]wkCM8t1
	F2 map[string]wkCM8t2
	F3 map[string]wkCM8t3
	F4 map[string]wkCM8t4
	F5 map[string]wkCM8t5
	F6 map[string]wkCM8t6
	F7 map[string]wkCM8t7
}
type wkCM8t7 struct {
	F0 map[string]wkCM8t0
	F1 map[string]wkCM8t1
	F2 map[string]wkCM8t2
	F3 map[string]wkCM8t3
	F4 map[string]wkCM8t4
	F5 map[string]wkCM8t5
	F6 map[string]wkCM8t6
	F7 map[string]wkCM8t7
}
type wkCM9t0 struct {
	F0 map[string]wkCM9t0
	F1 map[string]wkCM9t1
	F2 map[string]wkCM9t2
	F3 map[string]wkCM9t3
	F4 map[string]wkCM9t4
	F5 map[string]wkCM9t5
	F6 map[string]wkCM9t6
	F7 map[string]wkCM9t7
	F8 map[string]wkCM9t8
}
type wkCM9t1 struct {
	F0 map[string]wkCM9t0
	F1 map[string]wkCM9t1
	F2 map[string]wkCM9t2
	F3 map[string]wkCM9t3
	F4 map[string]wkCM9t4
	F5 map[string]wkCM9t5
	F6 map[string]wkCM9t6
	F7 map[string]wkCM9t7
	F8 map[string]wkCM9t8
}
type wkCM9t2 struct {
	F0 map[string]wkCM9t0
	F1 map[string]wkCM9t1
	F2 map[string]wkCM9t2
	F3 map[string]wkCM9t3
	F4 map[string]wkCM9t4
	F5 map[string]wkCM9t5
	F6 map[string]wkCM9t6
	F7 map[string]wkCM9t7
	F8 map[string]wkCM9t8
}
type wkCM9t3 struct {
	F0 map[string]wkCM9t0
	F1 map[string]wkCM9t1
	F2 map[string]wkCM9t2
	F3 map[string]wkCM9t3
	F4 map[string]wkCM9t4
	F5 map[string]wkCM9t5
	F6 map[string]wkCM9t6
	F7 map[string]wkCM9t7
	F8 map[string]wkCM9t8
}
type wkCM9t4 struct {
	F0 map[string]wkCM9t0
	F1 map[string]wkCM9t1
	F2 map[string]wkCM9t2
	F3 map[string]wkCM9t3
	F4 map[string]wkCM9t4
	F5 map[string]wkCM9t5
	F6 map[string]wkCM9t6
	F7 map[string]wkCM9t7
	F8 map[string]wkCM9t8
}
type wkCM9t5 struct {
	F0 map[string]wkCM9t0
	F1 map[string]wkCM9t1
	F2 map[string]wkCM9t2
	F3 map[string]wkCM9t3
	F4 map[string]wkCM9t4
	F5 map[string]wkCM9t5
	F6 map[string]wkCM9t6
	F7 map[string]wkCM9t7
	F8 map[string]wkCM9t8
}
type wkCM9t6 struct {
	F0 map[string]wkCM9t0
	F1 map[string]wkCM9t1
	F2 map[string]wkCM9t2
	F3 map[string]wkCM9t3
	F4 map[string]wkCM9t4
	F5 map[string]wkCM9t5
	F6 map[string]wkCM9t6
	F7 map[string]wkCM9t7
	F8 map[string]wkCM9t8
}
type wkCM9t7 struct {
	F0 map[string]wkCM9t0
	F1 map[string]wkCM9t1
	F2 map[string]wkCM9t2
	F3 map[string]wkCM9t3
	F4 map[string]wkCM9t4
	F5 map[string]wkCM9t5
	F6 map[string]wkCM9t6
	F7 map[string]wkCM9t7
	F8 map[string]wkCM9t8
}
type wkCM9t8 struct {
	F0 map[string]wkCM9t0
	F1 map[string]wkCM9t1
	F2 map[string]wkCM9t2
	F3 map[string]wkCM9t3
	F4 map[string]wkCM9t4
	F5 map[string]wkCM9t5
	F6 map[string]wkCM9t6
	F7 map[string]wkCM9t7
	F8 map[string]wkCM9t8
}
type wkCM10t0 struct {
	F0 map[string]wkCM10t0
	F1 map[string]wkCM10t1
	F2 map[string]wkCM10t2
	F3 map[string]wkCM10t3
	F4 map[string]wkCM10t4
	F5 map[string]wkCM10t5
	F6 map[string]wkCM10t6
	F7 map[string]wkCM10t7
	F8 map[string]wkCM10t8
	F9 map[string]wkCM10t9
}
type wkCM10t1 struct {
	F0 map[string]wkCM10t0
	F1 map[string]wkCM10t1
	F2 map[string]wkCM10t2
	F3 map[string]wkCM10t3
	F4 map[string]wkCM10t4
	F5 map[string]wkCM10t5
	F6 map[string]wkCM10t6
	F7 map[string]wkCM10t7
	F8 map[string]wkCM10t8
	F9 map[string]wkCM10t9
}
type wkCM10t2 struct {
	F0 map[string]wkCM10t0
	F1 map[string]wkCM10t1
	F2 map[string]wkCM10t2
	F3 map[string]wkCM10t3
	F4 map[string]wkCM10t4
	F5 map[string]wkCM10t5
	F6 map[string]wkCM10t6
	F7 map[string]wkCM10t7
	F8 map[string]wkCM10t8
	F9 map[string]wkCM10t9
}
type wkCM10t3 struct {
	F0 map[string]wkCM10t0
	F1 map[string]wkCM10t1
	F2 map[string]wkCM10t2
	F3 map[string]wkCM10t3
	F4 map[string]wkCM10t4
	F5 map[string]wkCM10t5
	F6 map[string]wkCM10t6
	F7 map[string]wkCM10t7
	F8 map[string]wkCM10t8
	F9 map[string]wkCM10t9
}
type wkCM10t4 struct {
	F0 map[string]wkCM10t0
	F1 map[string]wkCM10t1
	F2 map[string]wkCM10t2
	F3 map[string]wkCM10t3
	F4 map[string]wkCM10t4
	F5 map[string]wkCM10t5
	F6 map[string]wkCM10t6
	F7 map[string]wkCM10t7
	F8 map[string]wkCM10t8
	F9 map[string]wkCM10t9
}
type wkCM10t5 struct {
	F0 map[string]wkCM10t0
	F1 map[string]wkCM10t1
	F2 map[string]wkCM10t2
	F3 map[string]wkCM10t3
	F4 map[string]wkCM10t4
	F5 map[string]wkCM10t5
	F6 map[string]wkCM10t6
	F7 map[string]wkCM10t7
	F8 map[string]wkCM10t8
	F9 map[string]wkCM10t9
}
type wkCM10t6 struct {
	F0 map[string]wkCM10t0
	F1 map[string]wkCM10t1
	F2 map[string]wkCM10t2
	F3 map[string]wkCM10t3
	F4 map[string]wkCM10t4
	F5 map[string]wkCM10t5
	F6 map[string]wkCM10t6
	F7 map[string]wkCM10t7
	F8 map[string]wkCM10t8
	F9 map[string]wkCM10t9
}
type wkCM10t7 struct {
	F0 map[string]wkCM10t0
	F1 map[string]wkCM10t1
	F2 map[string]wkCM10t2
	F3 map[string]wkCM10t3
	F4 map[string]wkCM10t4
	F5 map[string]wkCM10t5
	F6 map[string]wkCM10t6
	F7 map[string]wkCM10t7
	F8 map[string]wkCM10t8
	F9 map[string]wkCM10t9
}
type wkCM10t8 struct {
	F0 map[string]wkCM10t0
	F1 map[string]wkCM10t1
	F2 map[string]wkCM10t2
	F3 map[string]wkCM10t3
	F4 map[string]wkCM10t4
	F5 map[string]wkCM10t5
	F6 map[string]wkCM10t6
	F7 map[string]wkCM10t7
	F8 map[string]wkCM10t8
	F9 map[string]wkCM10t9
}
type wkCM10t9 struct {
	F0 map[string]wkCM10t0
	F1 map[string]wkCM10t1
	F2 map[string]wkCM10t2
	F3 map[string]wkCM10t3
	F4 map[string]wkCM10t4
	F5 map[string]wkCM10t5
	F6 map[string]wkCM10t6
	F7 map[string]wkCM10t7
	F8 map[string]wkCM10t8
	F9 map[string]wkCM10t9
}
type wkCM11t0 struct {
	F0  map[string]wkCM11t0
	F1  map[string]wkCM11t1
	F2  map[string]wkCM11t2
	F3  map[string]wkCM11t3
	F4  map[string]wkCM11t4
	F5  map[string]wkCM11t5
	F6  map[string]wkCM11t6
	F7  map[string]wkCM11t7
	F8  map[string]wkCM11t8
	F9  map[string]wkCM11t9
	F10 map[string]wkCM11t10
}
type wkCM11t1 struct {
	F0  map[string]wkCM11t0
	F1  map[string]wkCM11t1
	F2  map[string]wkCM11t2
	F3  map[string]wkCM11t3
	F4  map[string]wkCM11t4
	F5  map[string]wkCM11t5
	F6  map[string]wkCM11t6
	F7  map[string]wkCM11t7
	F8  map[string]wkCM11t8
	F9  map[string]wkCM11t9
	F10 map[string]wkCM11t10
}
type wkCM11t2 struct {
	F0  map[string]wkCM11t0
	F1  map[string]wkCM11t1
	F2  map[string]wkCM11t2
	F3  map[string]wkCM11t3
	F4  map[string]wkCM11t4
	F5  map[string]wkCM11t5
	F6  map[string]wkCM11t6
	F7  map[string]wkCM11t7
	F8  map[string]wkCM11t8
	F9  map[string]wkCM11t9
	F10 map[string]wkCM11t10
}
type wkCM11t3 struct {
	F0  map[string]wkCM11t0
	F1  map[string]wkCM11t1
	F2  map[string]wkCM11t2
	F3  map[string]wkCM11t3
	F4  map[string]wkCM11t4
	F5  map[string]wkCM11t5
	F6  map[string]wkCM11t6
	F7  map[string]wkCM11t7
	F8  map[string]wkCM11t8
	F9  map[string]wkCM11t9
	F10 map[string]wkCM11t10
}
type wkCM11t4 struct {
	F0  map[string]wkCM11t0
	F1  map[string]wkCM11t1
	F2  map[string]wkCM11t2
	F3  map[string]wkCM11t3
	F4  map[string]wkCM11t4
	F5  map[string]wkCM11t5
	F6  map[string]wkCM11t6
	F7  map[string]wkCM11t7
	F8  map[string]wkCM11t8
	F9  map[string]wkCM11t9
	F10 map[string]wkCM11t10
}
type wkCM11t5 struct {
	F0  map[string]wkCM11t0
	F1  map[string]wkCM11t1
	F2  map[string]wkCM11t2
	F3  map[string]wkCM11t3
	F4  map[string]wkCM11t4
	F5  map[string]wkCM11t5
	F6  map[string]wkCM11t6
	F7  map[string]wkCM11t7
	F8  map[string]wkCM11t8
	F9  map[string]wkCM11t9
	F10 map[string]wkCM11t10
}
type wkCM11t6 struct {
	F0  map[string]wkCM11t0
	F1  map[string]wkCM11t1
	F2  map[string]wkCM11t2
	F3  map[string]wkCM11t3
	F4  map[string]wkCM11t4
	F5  map[string]wkCM11t5
	F6  map[string]wkCM11t6
	F7  map[string]wkCM11t7
	F8  map[string]wkCM11t8
	F9  map[string]wkCM11t9
	F10 map[string]wkCM11t10
}
type wkCM11t7 struct {
	F0  map[string]wkCM11t0
	F1  map[string]wkCM11t1
	F2  map[string]wkCM11t2
	F3  map[string]wkCM11t3
	F4  map[string]wkCM11t4
	F5  map[string]wkCM11t5
	F6  map[string]wkCM11t6
	F7  map[string]wkCM11t7
	F8  map[string]wkCM11t8
	F9  map[string]wkCM11t9
	F10 map[string]wkCM11t10
}
type wkCM11t8 struct {
	F0  map[string]wkCM11t0
	F1  map[string]wkCM11t1
	F2  map[string]wkCM11t2
	F3  map[string]wkCM11t3
	F4  map[string]wkCM11t4
	F5  map[string]wkCM11t5
	F6  map[string]wkCM11t6
	F7  map[string]wkCM11t7
	F8  map[string]wkCM11t8
	F9  map[string]wkCM11t9
	F10 map[string]wkCM11t10
}
type wkCM11t9 struct {
	F0  map[string]wkCM11t0
	F1  map[string]wkCM11t1
	F2  map[string]wkCM11t2
	F3  map[string]wkCM11t3
	F4  map[string]wkCM11t4
	F5  map[string]wkCM11t5
	F6  map[string]wkCM11t6
	F7  map[string]wkCM11t7
	F8  map[string]wkCM11t8
	F9  map[string]wkCM11t9
	F10 map[string]wkCM11t10
}
type wkCM11t10 struct {
	F0  map[string]wkCM11t0
	F1  map[string]wkCM11t1
	F2  map[string]wkCM11t2
	F3  map[string]wkCM11t3
	F4  map[string]wkCM11t4
	F5  map[string]wkCM11t5
	F6  map[string]wkCM11t6
	F7  map[string]wkCM11t7
	F8  map[string]wkCM11t8
	F9  map[string]wkCM11t9
	F10 map[string]wkCM11t10
}
type wkCM12t0 struct {
	F0  map[string]wkCM12t0
	F1  map[string]wkCM12t1
	F2  map[string]wkCM12t2
	F3  map[string]wkCM12t3
	F4  map[string]wkCM12t4
	F5  map[string]wkCM12t5
	F6  map[string]wkCM12t6
	F7  map[string]wkCM12t7
	F8  map[string]wkCM12t8
	F9  map[string]wkCM12t9
	F10 map[string]wkCM12t10
	F11 map[string]wkCM12t11
}
type wkCM12t1 struct {
	F0  map[string]wkCM12t0
	F1  map[string]wkCM12t1
	F2  map[string]wkCM12t2
	F3  map[string]wkCM12t3
	F4  map[string]wkCM12t4
	F5  map[string]wkCM12t5
	F6  map[string]wkCM12t6
	F7  map[string]wkCM12t7
	F8  map[string]wkCM12t8
	F9  map[string]wkCM12t9
	F10 map[string]wkCM12t10
	F11 map[string]wkCM12t11
}
type wkCM12t2 struct {
	F0  map[string]wkCM12t0
	F1  map[string]wkCM12t1
	F2  map[string]wkCM12t2
	F3  map[string]wkCM12t3
	F4  map[string]wkCM12t4
	F5  map[string]wkCM12t5
	F6  map[string]wkCM12t6
	F7  map[string]wkCM12t7
	F8  map[string]wkCM12t8
	F9  map[string]wkCM12t9
	F10 map[string]wkCM12t10
	F11 map[string]wkCM12t11
}
type wkCM12t3 struct {
	F0  map[string]wkCM12t0
	F1  map[string]wkCM12t1
	F2  map[string]wkCM12t2
	F3  map[string]wkCM12t3
	F4  map[string]wkCM12t4
	F5  map[string]wkCM12t5
	F6  map[string]wkCM12t6
	F7  map[string]wkCM12t7
	F8  map[string]wkCM12t8
	F9  map[string]wkCM12t9
	F10 map[string]wkCM12t10
	F11 map[string]wkCM12t11
}
type wkCM12t4 struct {
	F0  map[string]wkCM12t0
	F1  map[string]wkCM12t1
	F2  map[string]wkCM12t2
	F3  map[string]wkCM12t3
	F4  map[string]wkCM12t4
	F5  map[string]wkCM12t5
	F6  map[string]wkCM12t6
	F7  map[string]wkCM12t7
	F8  map[string]wkCM12t8
	F9  map[string]wkCM12t9
	F10 map[string]wkCM12t10
	F11 map[string]wkCM12t11
}
type wkCM12t5 struct {
	F0  map[string]wkCM12t0
	F1  map[string]wkCM12t1
	F2  map[string]wkCM12t2
	F3  map[string]wkCM12t3
	F4  map[string]wkCM12t4
	F5  map[string]wkCM12t5
	F6  map[string]wkCM12t6
	F7  map[string]wkCM12t7
	F8  map[string]wkCM12t8
	F9  map[string]wkCM12t9
	F10 map[string]wkCM12t10
	F11 map[string]wkCM12t11
}
type wkCM12t6 struct {
	F0  map[string]wkCM12t0
	F1  map[string]wkCM12t1
	F2  map[string]wkCM12t2
	F3  map[string]wkCM12t3
	F4  map[string]wkCM12t4
	F5  map[string]wkCM12t5
	F6  map[string]wkCM12t6
	F7  map[string]wkCM12t7
	F8  map[string]wkCM12t8
	F9  map[string]wkCM12t9
	F10 map[string]wkCM12t10
	F11 map[string]wkCM12t11
}
type wkCM12t7 struct {
	F0  map[string]wkCM12t0
	F1  map[string]wkCM12t1
	F2  map[string]wkCM12t2
	F3  map[string]wkCM12t3
	F4  map[string]wkCM12t4
	F5  map[string]wkCM12t5
	F6  map[string]wkCM12t6
	F7  map[string]wkCM12t7
	F8  map[string]wkCM12t8
	F9  map[string]wkCM12t9
	F10 map[string]wkCM12t10
	F11 map[string]wkCM12t11
}
type wkCM12t8 struct {
	F0  map[string]wkCM12t0
	F1  map[string]wkCM12t1
	F2  map[string]wkCM12t2
	F3  map[string]wkCM12t3
	F4  map[string]wkCM12t4
	F5  map[string]wkCM12t5
	F6  map[string]wkCM12t6
	F7  map[string]wkCM12t7
	F8  map[string]wkCM12t8
	F9  map[string]wkCM12t9
	F10 map[string]wkCM12t10
	F11 map[string]wkCM12t11
}
type wkCM12t9 struct {
	F0  map[string]wkCM12t0
	F1  map[string]wkCM12t1
	F2  map[string]wkCM12t2
	F3  map[string]wkCM12t3
	F4  map[string]wkCM12t4
	F5  map[string]wkCM12t5
	F6  map[string]wkCM12t6
	F7  map[string]wkCM12t7
	F8  map[string]wkCM12t8
	F9  map[string]wkCM12t9
	F10 map[string]wkCM12t10
	F11 map[string]wkCM12t11
}
type wkCM12t10 struct {
	F0  map[string]wkCM12t0
	F1  map[string]wkCM12t1
	F2  map[string]wkCM12t2
	F3  map[string]wkCM12t3
	F4  map[string]wkCM12t4
	F5  map[string]wkCM12t5
	F6  map[string]wkCM12t6
	F7  map[string]wkCM12t7
	F8  map[string]wkCM12t8
	F9  map[string]wkCM12t9
	F10 map[string]wkCM12t10
	F11 map[string]wkCM12t11
}
type wkCM12t11 struct {
	F0  map[string]wkCM12t0
	F1  map[string]wkCM12t1
	F2  map[string]wkCM12t2
	F3  map[string]wkCM12t3
	F4  map[string]wkCM12t4
	F5  map[string]wkCM12t5
	F6  map[string]wkCM12t6
	F7  map[string]wkCM12t7
	F8  map[string]wkCM12t8
	F9  map[string]wkCM12t9
	F10 map[string]wkCM12t10
	F11 map[string]wkCM12t11
}
type wkCM16t0 struct {
	F0  map[string]wkCM16t0
	F1  map[string]wkCM16t1
	F2  map[string]wkCM16t2
	F3  map[string]wkCM16t3
	F4  map[string]wkCM16t4
	F5  map[string]wkCM16t5
	F6  map[string]wkCM16t6
	F7  map[string]wkCM16t7
	F8  map[string]wkCM16t8
	F9  map[string]wkCM16t9
	F10 map[string]wkCM16t10
	F11 map[string]wkCM16t11
	F12 map[string]wkCM16t12
	F13 map[string]wkCM16t13
	F14 map[string]wkCM16t14
	F15 map[string]wkCM16t15
}
type wkCM16t1 struct {
	F0  map[string]wkCM16t0
	F1  map[string]wkCM16t1
	F2  map[string]wkCM16t2
	F3  map[string]wkCM16t3
	F4  map[string]wkCM16t4
	F5  map[string]wkCM16t5
	F6  map[string]wkCM16t6
	F7  map[string]wkCM16t7
	F8  map[string]wkCM16t8
	F9  map[string]wkCM16t9
	F10 map[string]wkCM16t10
	F11 map[string]wkCM16t11
	F12 map[string]wkCM16t12
	F13 map[string]wkCM16t13
	F14 map[string]wkCM16t14
	F15 map[string]wkCM16t15
}
type wkCM16t2 struct {
	F0  map[string]wkCM16t0
	F1  map[string]wkCM16t1
	F2  map[string]wkCM16t2
	F3  map[string]wkCM16t3
	F4  map[string]wkCM16t4
	F5  map[string]wkCM16t5
	F6  map[string]wkCM16t6
	F7  map[string]wkCM16t7
	F8  map[string]wkCM16t8
	F9  map[string]wkCM16t9
	F10 map[string]wkCM16t10
	F11 map[string]wkCM16t11
	F12 map[string]wkCM16t12
	F13 map[string]wkCM16t13
	F14 map[string]wkCM16t14
	F15 map[string]wkCM16t15
}
type wkCM16t3 struct {
	F0  map[string]wkCM16t0
	F1  map[string]wkCM16t1
	F2  map[string]wkCM16t2
	F3  map[string]wkCM16t3
	F4  map[string]wkCM16t4
	F5  map[string]wkCM16t5
	F6  map[string]wkCM16t6
	F7  map[string]wkCM16t7
	F8  map[string]wkCM16t8
	F9  map[string]wkCM16t9
	F10 map[string]wkCM16t10
	F11 map[string]wkCM16t11
	F12 map[string]wkCM16t12
	F13 map[string]wkCM16t13
	F14 map[string]wkCM16t14
	F15 map[string]wkCM16t15
}
type wkCM16t4 struct {
	F0  map[string]wkCM16t0
	F1  map[string]wkCM16t1
	F2  map[string]wkCM16t2
	F3  map[string]wkCM16t3
	F4  map[string]wkCM16t4
	F5  map[string]wkCM16t5
	F6  map[string]wkCM16t6
	F7  map[string]wkCM16t7
	F8  map[string]wkCM16t8
	F9  map[string]wkCM16t9
	F10 map[string]wkCM16t10
	F11 map[string]wkCM16t11
	F12 map[string]wkCM16t12
	F13 map[string]wkCM16t13
	F14 map[string]wkCM16t14
	F15 map[string]wkCM16t15
}
type wkCM16t5 struct {
	F0  map[string]wkCM16t0
	F1  map[string]wkCM16t1
	F2  map[string]wkCM16t2
	F3  map[string]wkCM16t3
	F4  map[string]wkCM16t4
	F5  map[string]wkCM16t5
	F6  map[string]wkCM16t6
	F7  map[string]wkCM16t7
	F8  map[string]wkCM16t8
	F9  map[string]wkCM16t9
	F10 map[string]wkCM16t10
	F11 map[string]wkCM16t11
	F12 map[string]wkCM16t12
	F13 map[string]wkCM16t13
	F14 map[string]wkCM16t14
	F15 map[string]wkCM16t15
}
type wkCM16t6 struct {
	F0  map[string]wkCM16t0
	F1  map[string]wkCM16t1
	F2  map[string]wkCM16t2
	F3  map[string]wkCM16t3
	F4  map[string]wkCM16t4
	F5  map[string]wkCM16t5
	F6  map[string]wkCM16t6
	F7  map[string]wkCM16t7
	F8  map[string]wkCM16t8
	F9  map[string]wkCM16t9
	F10 map[string]wkCM16t10
	F11 map[string]wkCM16t11
	F12 map[string]wkCM16t12
	F13 map[string]wkCM16t13
	F14 map[string]wkCM16t14
	F15 map[string]wkCM16t15
}
type wkCM16t7 struct {
	F0  map[string]wkCM16t0
	F1  map[string]wkCM16t1
	F2  map[string]wkCM16t2
	F3  map[string]wkCM16t3
	F4  map[string]wkCM16t4
	F5  map[string]wkCM16t5
	F6  map[string]wkCM16t6
	F7  map[string]wkCM16t7
	F8  map[string]wkCM16t8
	F9  map[string]wkCM16t9
	F10 map[string]wkCM16t10
	F11 map[string]wkCM16t11
	F12 map[string]wkCM16t12
	F13 map[string]wkCM16t13
	F14 map[string]wkCM16t14
	F15 map[string]wkCM16t15
}
type wkCM16t8 struct {
	F0  map[string]wkCM16t0
	F1  map[string]wkCM16t1
	F2  map[string]wkCM16t2
	F3  map[string]wkCM16t3
	F4  map[string]wkCM16t4
	F5  map[string]wkCM16t5
	F6  map[string]wkCM16t6
	F7  map[string]wkCM16t7
	F8  map[string]wkCM16t8
	F9  map[string]wkCM16t9
	F10 map[string]wkCM16t10
	F11 map[string]wkCM16t11
	F12 map[string]wkCM16t12
	F13 map[string]wkCM16t13
	F14 map[string]wkCM16t14
	F15 map[string]wkCM16t15
}
type wkCM16t9 struct {
	F0  map[string]wkCM16t0
	F1  map[string]wkCM16t1
	F2  map[string]wkCM16t2
	F3  map[string]wkCM16t3
	F4  map[string]wkCM16t4
	F5  map[string]wkCM16t5
	F6  map[string]wkCM16t6
	F7  map[string]wkCM16t7
	F8  map[string]wkCM16t8
	F9  map[string]wkCM16t9
	F10 map[string]wkCM16t10
	F11 map[string]wkCM16t11
	F12 map[string]wkCM16t12
	F13 map[string]wkCM16t13
	F14 map[string]wkCM16t14
	F15 map[string]wkCM16t15
}
type wkCM16t10 struct {
	F0  map[string]wkCM16t0
	F1  map[string]wkCM16t1
	F2  map[string]wkCM16t2
	F3  map[string]wkCM16t3
	F4  map[string]wkCM16t4
	F5  map[string]wkCM16t5
	F6  map[string]wkCM16t6
	F7  map[string]wkCM16t7
	F8  map[string]wkCM16t8
	F9  map[string]wkCM16t9
	F10 map[string]wkCM16t10
	F11 map[string]wkCM16t11
	F12 map[string]wkCM16t12
	F13 map[string]wkCM16t13
	F14 map[string]wkCM16t14
	F15 map[string]wkCM16t15
}
type wkCM16t11 struct {
	F0  map[string]wkCM16t0
	F1  map[string]wkCM16t1
	F2  map[string]wkCM16t2
	F3  map[string]wkCM16t3
	F4  map[string]wkCM16t4
	F5  map[string]wkCM16t5
	F6  map[string]wkCM16t6
	F7  map[string]wkCM16t7
	F8  map[string]wkCM16t8
	F9  map[string]wkCM16t9
	F10 map[string]wkCM16t10
	F11 map[string]wkCM16t11
	F12 map[string]wkCM16t12
	F13 map[string]wkCM16t13
	F14 map[string]wkCM16t14
	F15 map[string]wkCM16t15
}
type wkCM16t12 struct {
	F0  map[string]wkCM16t0
	F1  map[string]wkCM16t1
	F2  map[string]wkCM16t2
	F3  map[string]wkCM16t3
	F4  map[string]wkCM16t4
	F5  map[string]wkCM16t5
	F6  map[string]wkCM16t6
	F7  map[string]wkCM16t7
	F8  map[string]wkCM16t8
	F9  map[string]wkCM16t9
	F10 map[string]wkCM16t10
	F11 map[string]wkCM16t11
	F12 map[string]wkCM16t12
	F13 map[string]wkCM16t13
	F14 map[string]wkCM16t14
	F15 map[string]wkCM16t15
}
type wkCM16t13 struct {
	F0  map[string]wkCM16t0
	F1  map[string]wkCM16t1
	F2  map[string]wkCM16t2
	F3  map[string]wkCM16t3
	F4  map[string]wkCM16t4
	F5  map[string]wkCM16t5
	F6  map[string]wkCM16t6
	F7  map[string]wkCM16t7
	F8  map[string]wkCM16t8
	F9  map[string]wkCM16t9
	F10 map[string]wkCM16t10
	F11 map[string]wkCM16t11
	F12 map[string]wkCM16t12
	F13 map[string]wkCM16t13
	F14 map[string]wkCM16t14
	F15 map[string]wkCM16t15
}
type wkCM16t14 struct {
	F0  map[string]wkCM16t0
	F1  map[string]wkCM16t1
	F2  map[string]wkCM16t2
	F3  map[string]wkCM16t3
	F4  map[string]wkCM16t4
	F5  map[string]wkCM16t5
	F6  map[string]wkCM16t6
	F7  map[string]wkCM16t7
	F8  map[string]wkCM16t8
	F9  map[string]wkCM16t9
	F10 map[string]wkCM16t10
	F11 map[string]wkCM16t11
	F12 map[string]wkCM16t12
	F13 map[string]wkCM16t13
	F14 map[string]wkCM16t14
	F15 map[string]wkCM16t15
}
type wkCM16t15 struct {
	F0  map[string]wkCM16t0
	F1  map[string]wkCM16t1
	F2  map[string]wkCM16t2
	F3  map[string]wkCM16t3
	F4  map[string]wkCM16t4
	F5  map[string]wkCM16t5
	F6  map[string]wkCM16t6
	F7  map[string]wkCM16t7
	F8  map[string]wkCM16t8
	F9  map[string]wkCM16t9
	F10 map[string]wkCM16t10
	F11 map[string]wkCM16t11
	F12 map[string]wkCM16t12
	F13 map[string]wkCM16t13
	F14 map[string]wkCM16t14
	F15 map[string]wkCM16t15
}
type wkCM24t0 struct {
	F0  map[string]wkCM24t0
	F1  map[string]wkCM24t1
	F2  map[string]wkCM24t2
	F3  map[string]wkCM24t3
	F4  map[string]wkCM24t4
	F5  map[string]wkCM24t5
	F6  map[string]wkCM24t6
	F7  map[string]wkCM24t7
	F8  map[string]wkCM24t8
	F9  map[string]wkCM24t9
	F10 map[string]wkCM24t10
	F11 map[string]wkCM24t11
	F12 map[string]wkCM24t12
	F13 map[string]wkCM24t13
	F14 map[string]wkCM24t14
	F15 map[string]wkCM24t15
	F16 map[string]wkCM24t16
	F17 map[string]wkCM24t17
	F18 map[string]wkCM24t18
	F19 map[string]wkCM24t19
	F20 map[string]wkCM24t20
	F21 map[string]wkCM24t21
	F22 map[string]wkCM24t22
	F23 map[string]wkCM24t23
}
type wkCM24t1 struct {
	F0  map[string]wkCM24t0
	F1  map[string]wkCM24t1
	F2  map[string]wkCM24t2
	F3  map[string]wkCM24t3
	F4  map[string]wkCM24t4
	F5  map[string]wkCM24t5
	F6  map[string]wkCM24t6
	F7  map[string]wkCM24t7
	F8  map[string]wkCM24t8
	F9  map[string]wkCM24t9
	F10 map[string]wkCM24t10
	F11 map[string]wkCM24t11
	F12 map[string]wkCM24t12
	F13 map[string]wkCM24t13
	F14 map[string]wkCM24t14
	F15 map[string]wkCM24t15
	F16 map[string]wkCM24t16
	F17 map[string]wkCM24t17
	F18 map[string]wkCM24t18
	F19 map[string]wkCM24t19
	F20 map[string]wkCM24t20
	F21 map[string]wkCM24t21
	F22 map[string]wkCM24t22
	F23 map[string]wkCM24t23
}
type wkCM24t2 struct {
	F0  map[string]wkCM24t0
	F1  map[string]wkCM24t1
	F2  map[string]wkCM24t2
	F3  map[string]wkCM24t3
	F4  map[string]wkCM24t4
	F5  map[string]wkCM24t5
	F6  map[string]wkCM24t6
	F7  map[string]wkCM24t7
	F8  map[string]wkCM24t8
	F9  map[string]wkCM24t9
	F10 map[string]wkCM24t10
	F11 map[string]wkCM24t11
	F12 map[string]wkCM24t12
	F13 map[string]wkCM24t13
	F14 map[string]wkCM24t14
	F15 map[string]wkCM24t15
	F16 map[string]wkCM24t16
	F17 map[string]wkCM24t17
	F18 map[string]wkCM24t18
	F19 map[string]wkCM24t19
	F20 map[string]wkCM24t20
	F21 map[string]wkCM24t21
	F22 map[string]wkCM24t22
	F23 map[string]wkCM24t23
}
type wkCM24t3 struct {
	F0  map[string]wkCM24t0
	F1  map[string]wkCM24t1
	F2  map[string]wkCM24t2
	F3  map[string]wkCM24t3
	F4  map[string]wkCM24t4
	F5  map[string]wkCM24t5
	F6  map[string]wkCM24t6
	F7  map[string]wkCM24t7
	F8  map[string]wkCM24t8
	F9  map[string]wkCM24t9
	F10 map[string]wkCM24t10
	F11 map[string]wkCM24t11
	F12 map[string]wkCM24t12
	F13 map[string]wkCM24t13
	F14 map[string]wkCM24t14
	F15 map[string]wkCM24t15
	F16 map[string]wkCM24t16
	F17 map[string]wkCM24t17
	F18 map[string]wkCM24t18
	F19 map[string]wkCM24t19
	F20 map[string]wkCM24t20
	F21 map[string]wkCM24t21
	F22 map[string]wkCM24t22
	F23 map[string]wkCM24t23
}
type wkCM24t4 struct {
	F0  map[string]wkCM24t0
	F1  map[string]wkCM24t1
	F2  map[string]wkCM24t2
	F3  map[string]wkCM24t3
	F4  map[string]wkCM24t4
	F5  map[string]wkCM24t5
	F6  map[string]wkCM24t6
	F7  map[string]wkCM24t7
	F8  map[string]wkCM24t8
	F9  map[string]wkCM24t9
	F10 map[string]wkCM24t10
	F11 map[string]wkCM24t11
	F12 map[string]wkCM24t12
	F13 map[string]wkCM24t13
	F14 map[string]wkCM24t14
	F15 map[string]wkCM24t15
	F16 map[string]wkCM24t16
	F17 map[string]wkCM24t17
	F18 map[string]wkCM24t18
	F19 map[string]wkCM24t19
	F20 map[string]wkCM24t20
	F21 map[string]wkCM24t21
	F22 map[string]wkCM24t22
	F23 map[string]wkCM24t23
}
type wkCM24t5 struct {
	F0  map[string]wkCM24t0
	F1  map[string]wkCM24t1
	F2  map[string]wkCM24t2
	F3  map[string]wkCM24t3
	F4  map[string]wkCM24t4
	F5  map[string]wkCM24t5
	F6  map[string]wkCM24t6
	F7  map[string]wkCM24t7
	F8  map[string]wkCM24t8
	F9  map[string]wkCM24t9
	F10 map[string]wkCM24t10
	F11 map[string]wkCM24t11
	F12 map[string]wkCM24t12
	F13 map[string]wkCM24t13
	F14 map[string]wkCM24t14
	F15 map[string]wkCM24t15
	F16 map[string]wkCM24t16
	F17 map[string]wkCM24t17
	F18 map[string]wkCM24t18
	F19 map[string]wkCM24t19
	F20 map[string]wkCM24t20
	F21 map[string]wkCM24t21
	F22 map[string]wkCM24t22
	F23 map[string]wkCM24t23
}
type wkCM24t6 struct {
	F0  map[string]wkCM24t0
	F1  map[string]wkCM24t1
	F2  map[string]wkCM24t2
	F3  map[string]wkCM24t3
	F4  map[string]wkCM24t4
	F5  map[string]wkCM24t5
	F6  map[string]wkCM24t6
	F7  map[string]wkCM24t7
	F8  map[string]wkCM24t8
	F9  map[string]wkCM24t9
	F10 map[string]wkCM24t10
	F11 map[string]wkCM24t11
	F12 map[string]wkCM24t12
	F13 map[string]wkCM24t13
	F14 map[string]wkCM24t14
	F15 map[string]wkCM24t15
	F16 map[string]wkCM24t16
	F17 map[string]wkCM24t17
	F18 map[string]wkCM24t18
	F19 map[string]wkCM24t19
	F20 map[string]wkCM24t20
	F21 map[string]wkCM24t21
	F22 map[string]wkCM24t22
	F23 map[string]wkCM24t23
}
type wkCM24t7 struct {
	F0  map[string]wkCM24t0
	F1  map[string]wkCM24t1
	F2  map[string]wkCM24t2
	F3  map[string]wkCM24t3
	F4  map[string]wkCM24t4
	F5  map[string]wkCM24t5
	F6  map[string]wkCM24t6
	F7  map[string]wkCM24t7
	F8  map[string]wkCM24t8
	F9  map[string]wkCM24t9
	F10 map[string]wkCM24t10
	F11 map[string]wkCM24t11
	F12 map[string]wkCM24t12
	F13 map[string]wkCM24t13
	F14 map[string]wkCM24t14
	F15 map[string]wkCM24t15
	F16 map[string]wkCM24t16
	F17 map[string]wkCM24t17
	F18 map[string]wkCM24t18
	F19 map[string]wkCM24t19
	F20 map[string]wkCM24t20
	F21 map[string]wkCM24t21
	F22 map[string]wkCM24t22
	F23 map[string]wkCM24t23
}
type wkCM24t8 struct {
	F0  map[string]wkCM24t0
	F1  map[string]wkCM24t1
	F2  map[string]wkCM24t2
	F3  map[string]wkCM24t3
	F4  map[string]wkCM24t4
	F5  map[string]wkCM24t5
	F6  map[string]wkCM24t6
	F7  map[string]wkCM24t7
	F8  map[string]wkCM24t8
	F9  map[string]wkCM24t9
	F10 map[string]wkCM24t10
	F11 map[string]wkCM24t11
	F12 map[string]wkCM24t12
	F13 map[string]wkCM24t13
	F14 map[string]wkCM24t14
	F15 map[string]wkCM24t15
	F16 map[string]wkCM24t16
	F17 map[string]wkCM24t17
	F18 map[string]wkCM24t18
	F19 map[string]wkCM24t19
	F20 map[string]wkCM24t20
	F21 map[string]wkCM24t21
	F22 map[string]wkCM24t22
	F23 map[string]wkCM24t23
}
type wkCM24t9 struct {
	F0  map[string]wkCM24t0
	F1  map[string]wkCM24t1
	F2  map[string]wkCM24t2
	F3  map[string]wkCM24t3
	F4  map[string]wkCM24t4
	F5  map[string]wkCM24t5
	F6  map[string]wkCM24t6
	F7  map[string]wkCM24t7
	F8  map[string]wkCM24t8
	F9  map[string]wkCM24t9
	F10 map[string]wkCM24t10
	F11 map[string]wkCM24t11
	F12 map[string]wkCM24t12
	F13 map[string]wkCM24t13
	F14 map[string]wkCM24t14
	F15 map[string]wkCM24t15
	F16 map[string]wkCM24t16
	F17 map[string]wkCM24t17
	F18 map[string]wkCM24t18
	F19 map[string]wkCM24t19
	F20 map[string]wkCM24t20
	F21 map[string]wkCM24t21
	F22 map[string]wkCM24t22
	F23 map[string]wkCM24t23
}
type wkCM24t10 struct {
	F0  map[string]wkCM24t0
	F1  map[string]wkCM24t1
	F2  map[string]wkCM24t2
	F3  map[string]wkCM24t3
	F4  map[string]wkCM24t4
	F5  map[string]wkCM24t5
	F6  map[string]wkCM24t6
	F7  map[string]wkCM24t7
	F8  map[string]wkCM24t8
	F9  map[string]wkCM24t9
	F10 map[string]wkCM24t10
	F11 map[string]wkCM24t11
	F12 map[string]wkCM24t12
	F13 map[string]wkCM24t13
	F14 map[string]wkCM24t14
	F15 map[string]wkCM24t15
	F16 map[string]wkCM24t16
	F17 map[string]wkCM24t17
	F18 map[string]wkCM24t18
	F19 map[string]wkCM24t19
	F20 map[string]wkCM24t20
	F21 map[string]wkCM24t21
	F22 map[string]wkCM24t22
	F23 map[string]wkCM24t23
}
type wkCM24t11 struct {
	F0  map[string]wkCM24t0
	F1  map[string]wkCM24t1
	F2  map[string]wkCM24t2
	F3  map[string]wkCM24t3
	F4  map[string]wkCM24t4
	F5  map[string]wkCM24t5
	F6  map[string]wkCM24t6
	F7  map[string]wkCM24t7
	F8  map[string]wkCM24t8
	F9  map[string]wkCM24t9
	F10 map[string]wkCM24t10
	F11 map[string]wkCM24t11
	F12 map[string]wkCM24t12
	F13 map[string]wkCM24t13
	F14 map[string]wkCM24t14
	F15 map[string]wkCM24t15
	F16 map[string]wkCM24t16
	F17 map[string]wkCM24t17
	F18 map[string]wkCM24t18
	F19 map[string]wkCM24t19
	F20 map[string]wkCM24t20
	F21 map[string]wkCM24t21
	F22 map[string]wkCM24t22
	F23 map[string]wkCM24t23
}
type wkCM24t12 struct {
	F0  map[string]wkCM24t0
	F1  map[string]wkCM24t1
	F2  map[string]wkCM24t2
	F3  map[string]wkCM24t3
	F4  map[string]wkCM24t4
	F5  map[string]wkCM24t5
	F6  map[string]wkCM24t6
	F7  map[string]wkCM24t7
	F8  map[string]wkCM24t8
	F9  map[string]wkCM24t9
	F10 map[string]wkCM24t10
	F11 map[string]wkCM24t11
	F12 map[string]wkCM24t12
	F13 map[string]wkCM24t13
	F14 map[string]wkCM24t14
	F15 map[string]wkCM24t15
	F16 map[string]wkCM24t16
	F17 map[string]wkCM24t17
	F18 map[string]wkCM24t18
	F19 map[string]wkCM24t19
	F20 map[string]wkCM24t20
	F21 map[string]wkCM24t21
	F22 map[string]wkCM24t22
	F23 map[string]wkCM24t23
}
type wkCM24t13 struct {
	F0  map[string]wkCM24t0
	F1  map[string]wkCM24t1
	F2  map[string]wkCM24t2
	F3  map[string]wkCM24t3
	F4  map[string]wkCM24t4
	F5  map[string]wkCM24t5
	F6  map[string]wkCM24t6
	F7  map[string]wkCM24t7
	F8  map[string]wkCM24t8
	F9  map[string]wkCM24t9
	F10 map[string]wkCM24t10
	F11 map[string]wkCM24t11
	F12 map[string]wkCM24t12
	F13 map[string]wkCM24t13
	F14 map[string]wkCM24t14
	F15 map[string]wkCM24t15
	F16 map[string]wkCM24t16
	F17 map[string]wkCM24t17
	F18 map[string]wkCM24t18
	F19 map[string]wkCM24t19
	F20 map[string]wkCM24t20
	F21 map[string]wkCM24t21
	F22 map[string]wkCM24t22
	F23 map[string]wkCM24t23
}
type wkCM24t14 struct {
	F0  map[string]wkCM24t0
	F1  map[string]wkCM24t1
	F2  map[string]wkCM24t2
	F3  map[string]wkCM24t3
	F4  map[string]wkCM24t4
	F5  map[string]wkCM24t5
	F6  map[string]wkCM24t6
	F7  map[string]wkCM24t7
	F8  map[string]wkCM24t8
	F9  map[string]wkCM24t9
	F10 map[string]wkCM24t10
	F11 map[string]wkCM24t11
	F12 map[string]wkCM24t12
	F13 map[string]wkCM24t13
	F14 map[string]wkCM24t14
	F15 map[string]wkCM24t15
	F16 map[string]wkCM24t16
	F17 map[string]wkCM24t17
	F18 map[string]wkCM24t18
	F19 map[string]wkCM24t19
	F20 map[string]wkCM24t20
	F21 map[string]wkCM24t21
	F22 map[string]wkCM24t22
	F23 map[string]wkCM24t23
}
type wkCM24t15 struct {
	F0  map[string]wkCM24t0
	F1  map[string]wkCM24t1
	F2  map[string]wkCM24t2
	F3  map[string]wkCM24t3
	F4  map[string]wkCM24t4
	F5  map[string]wkCM24t5
	F6  map[string]wkCM24t6
	F7  map[string]wkCM24t7
	F8  map[string]wkCM24t8
	F9  map[string]wkCM24t9
	F10 map[string]wkCM24t10
	F11 map[string]wkCM24t11
	F12 map[string]wkCM24t12
	F13 map[string]wkCM24t13
	F14 map[string]wkCM24t14
	F15 map[string]wkCM24t15
	F16 map[string]wkCM24t16
	F17 map[string]wkCM24t17
	F18 map[string]wkCM24t18
	F19 map[string]wkCM24t19
	F20 map[string]wkCM24t20
	F21 map[string]wkCM24t21
	F22 map[string]wkCM24t22
	F23 map[string]wkCM24t23
}
type wkCM24t16 struct {
	F0  map[string]wkCM24t0
	F1  map[string]wkCM24t1
	F2  map[string]wkCM24t2
	F3  map[string]wkCM24t3
	F4  map[string]wkCM24t4
	F5  map[string]wkCM24t5
	F6  map[string]wkCM24t6
	F7  map[string]wkCM24t7
	F8  map[string]wkCM24t8
	F9  map[string]wkCM24t9
	F10 map[string]wkCM24t10
	F11 map[string]wkCM24t11
	F12 map[string]wkCM24t12
	F13 map[string]wkCM24t13
	F14 map[string]wkCM24t14
	F15 map[string]wkCM24t15
	F16 map[string]wkCM24t16
	F17 map[string]wkCM24t17
	F18 map[string]wkCM24t18
	F19 map[string]wkCM24t19
	F20 map[string]wkCM24t20
	F21 map[string]wkCM24t21
	F22 map[string]wkCM24t22
	F23 map[string]wkCM24t23
}
type wkCM24t17 struct {
	F0  map[string]wkCM24t0
	F1  map[string]wkCM24t1
	F2  map[string]wkCM24t2
	F3  map[string]wkCM24t3
	F4  map[string]wkCM24t4
	F5  map[string]wkCM24t5
	F6  map[string]wkCM24t6
	F7  map[string]wkCM24t7
	F8  map[string]wkCM24t8
	F9  map[string]wkCM24t9
	F10 map[string]wkCM24t10
	F11 map[string]wkCM24t11
	F12 map[string]wkCM24t12
	F13 map[string]wkCM24t13
	F14 map[string]wkCM24t14
	F15 map[string]wkCM24t15
	F16 map[string]wkCM24t16
	F17 map[string]wkCM24t17
	F18 map[string]wkCM24t18
	F19 map[string]wkCM24t19
	F20 map[string]wkCM24t20
	F21 map[string]wkCM24t21
	F22 map[string]wkCM24t22
	F23 map[string]wkCM24t23
}
type wkCM24t18 struct {
	F0  map[string]wkCM24t0
	F1  map[string]wkCM24t1
	F2  map[string]wkCM24t2
	F3  map[string]wkCM24t3
	F4  map[string]wkCM24t4
	F5  map[string]wkCM24t5
	F6  map[string]wkCM24t6
	F7  map[string]wkCM24t7
	F8  map[string]wkCM24t8
	F9  map[string]wkCM24t9
	F10 map[string]wkCM24t10
	F11 map[string]wkCM24t11
	F12 map[string]wkCM24t12
	F13 map[string]wkCM24t13
	F14 map[string]wkCM24t14
	F15 map[string]wkCM24t15
	F16 map[string]wkCM24t16
	F17 map[string]wkCM24t17
	F18 map[string]wkCM24t18
	F19 map[string]wkCM24t19
	F20 map[string]wkCM24t20
	F21 map[string]wkCM24t21
	F22 map[string]wkCM24t22
	F23 map[string]wkCM24t23
}
type wkCM24t19 struct {
	F0  map[string]wkCM24t0
	F1  map[string]wkCM24t1
	F2  map[string]wkCM24t2
	F3  map[string]wkCM24t3
	F4  map[string]wkCM24t4
	F5  map[string]wkCM24t5
	F6  map[string]wkCM24t6
	F7  map[string]wkCM24t7
	F8  map[string]wkCM24t8
	F9  map[string]wkCM24t9
	F10 map[string]wkCM24t10
	F11 map[string]wkCM24t11
	F12 map[string]wkCM24t12
	F13 map[string]wkCM24t13
	F14 map[string]wkCM24t14
	F15 map[string]wkCM24t15
	F16 map[string]wkCM24t16
	F17 map[string]wkCM24t17
	F18 map[string]wkCM24t18
	F19 map[string]wkCM24t19
	F20 map[string]wkCM24t20
	F21 map[string]wkCM24t21
	F22 map[string]wkCM24t22
	F23 map[string]wkCM24t23
}
type wkCM24t20 struct {
	F0  map[string]wkCM24t0
	F1  map[string]wkCM24t1
	F2  map[string]wkCM24t2
	F3  map[string]wkCM24t3
	F4  map[string]wkCM24t4
	F5  map[string]wkCM24t5
	F6  map[string]wkCM24t6
	F7  map[string]wkCM24t7
	F8  map[string]wkCM24t8
	F9  map[string]wkCM24t9
	F10 map[string]wkCM24t10
	F11 map[string]wkCM24t11
	F12 map[string]wkCM24t12
	F13 map[string]wkCM24t13
	F14 map[string]wkCM24t14
	F15 map[string]wkCM24t15
	F16 map[string]wkCM24t16
	F17 map[string]wkCM24t17
	F18 map[string]wkCM24t18
	F19 map[string]wkCM24t19
	F20 map[string]wkCM24t20
	F21 map[string]wkCM24t21
	F22 map[string]wkCM24t22
	F23 map[string]wkCM24t23
}
type wkCM24t21 struct {
	F0  map[string]wkCM24t0
	F1  map[string]wkCM24t1
	F2  map[string]wkCM24t2
	F3  map[string]wkCM24t3
	F4  map[string]wkCM24t4
	F5  map[string]wkCM24t5
	F6  map[string]wkCM24t6
	F7  map[string]wkCM24t7
	F8  map[string]wkCM24t8
	F9  map[string]wkCM24t9
	F10 map[string]wkCM24t10
	F11 map[string]wkCM24t11
	F12 map[string]wkCM24t12
	F13 map[string]wkCM24t13
	F14 map[string]wkCM24t14
	F15 map[string]wkCM24t15
	F16 map[string]wkCM24t16
	F17 map[string]wkCM24t17
	F18 map[string]wkCM24t18
	F19 map[string]wkCM24t19
	F20 map[string]wkCM24t20
	F21 map[string]wkCM24t21
	F22 map[string]wkCM24t22
	F23 map[string]wkCM24t23
}
type wkCM24t22 struct {
	F0  map[string]wkCM24t0
	F1  map[string]wkCM24t1
	F2  map[string]wkCM24t2
	F3  map[string]wkCM24t3
	F4  map[string]wkCM24t4
	F5  map[string]wkCM24t5
	F6  map[string]wkCM24t6
	F7  map[string]wkCM24t7
	F8  map[string]wkCM24t8
	F9  map[string]wkCM24t9
	F10 map[string]wkCM24t10
	F11 map[string]wkCM24t11
	F12 map[string]wkCM24t12
	F13 map[string]wkCM24t13
	F14 map[string]wkCM24t14
	F15 map[string]wkCM24t15
	F16 map[string]wkCM24t16
	F17 map[string]wkCM24t17
	F18 map[string]wkCM24t18
	F19 map[string]wkCM24t19
	F20 map[string]wkCM24t20
	F21 map[string]wkCM24t21
	F22 map[string]wkCM24t22
	F23 map[string]wkCM24t23
}
type wkCM24t23 struct {
	F0  map[string]wkCM24t0
	F1  map[string]wkCM24t1
	F2  map[string]wkCM24t2
	F3  map[string]wkCM24t3
	F4  map[string]wkCM24t4
	F5  map[string]wkCM24t5
	F6  map[string]wkCM24t6
	F7  map[string]wkCM24t7
	F8  map[string]wkCM24t8
	F9  map[string]wkCM24t9
	F10 map[string]wkCM24t10
	F11 map[string]wkCM24t11
	F12 map[string]wkCM24t12
	F13 map[string]wkCM24t13
	F14 map[string]wkCM24t14
	F15 map[string]wkCM24t15
	F16 map[string]wkCM24t16
	F17 map[string]wkCM24t17
	F18 map[string]wkCM24t18
	F19 map[string]wkCM24t19
	F20 map[string]wkCM24t20
	F21 map[string]wkCM24t21
	F22 map[string]wkCM24t22
	F23 map[string]wkCM24t23
}
type wkDM4t0 struct{ A int }
type wkDM4t1 struct {
	A map[string]wkDM4t0
	B map[string]wkDM4t0
	C map[string]wkDM4t0
}
type wkDM4t2 struct {
	A map[string]wkDM4t1
	B map[string]wkDM4t1
	C map[string]wkDM4t1
}
type wkDM4t3 struct {
	A map[string]wkDM4t2
	B map[string]wkDM4t2
	C map[string]wkDM4t2
}
type wkDM4t4 struct {
	A map[string]wkDM4t3
	B map[string]wkDM4t3
	C map[string]wkDM4t3
}
type wkDM8t0 struct{ A int }
type wkDM8t1 struct {
	A map[string]wkDM8t0
	B map[string]wkDM8t0
	C map[string]wkDM8t0
}
type wkDM8t2 struct {
	A map[string]wkDM8t1
	B map[string]wkDM8t1
	C map[string]wkDM8t1
}
type wkDM8t3 struct {
	A map[string]wkDM8t2
	B map[string]wkDM8t2
	C map[string]wkDM8t2
}
type wkDM8t4 struct {
	A map[string]wkDM8t3
	B map[string]wkDM8t3
	C map[string]wkDM8t3
}
type wkDM8t5 struct {
	A map[string]wkDM8t4
	B map[string]wkDM8t4
	C map[string]wkDM8t4
}
type wkDM8t6 struct {
	A map[string]wkDM8t5
	B map[string]wkDM8t5
	C map[string]wkDM8t5
}
type wkDM8t7 struct {
	A map[string]wkDM8t6
	B map[string]wkDM8t6
	C map[string]wkDM8t6
}
type wkDM8t8 struct {
	A map[string]wkDM8t7
	B map[string]wkDM8t7
	C map[string]wkDM8t7
}
type wkDM11t0 struct{ A int }
type wkDM11t1 struct {
	A map[string]wkDM11t0
	B map[string]wkDM11t0
	C map[string]wkDM11t0
}
type wkDM11t2 struct {
	A map[string]wkDM11t1
	B map[string]wkDM11t1
	C map[string]wkDM11t1
}
type wkDM11t3 struct {
	A map[string]wkDM11t2
	B map[string]wkDM11t2
	C map[string]wkDM11t2
}
type wkDM11t4 struct {
	A map[string]wkDM11t3
	B map[string]wkDM11t3
	C map[string]wkDM11t3
}
type wkDM11t5 struct {
	A map[string]wkDM11t4
	B map[string]wkDM11t4
	C map[string]wkDM11t4
}
type wkDM11t6 struct {
	A map[string]wkDM11t5
	B map[string]wkDM11t5
	C map[string]wkDM11t5
}
type wkDM11t7 struct {
	A map[string]wkDM11t6
	B map[string]wkDM11t6
	C map[string]wkDM11t6
}
type wkDM11t8 struct {
	A map[string]wkDM11t7
	B map[string]wkDM11t7
	C map[string]wkDM11t7
}
type wkDM11t9 struct {
	A map[string]wkDM11t8
	B map[string]wkDM11t8
	C map[string]wkDM11t8
}
type wkDM11t10 struct {
	A map[string]wkDM11t9
	B map[string]wkDM11t9
	C map[string]wkDM11t9
}
type wkDM11t11 struct {
	A map[string]wkDM11t10
	B map[string]wkDM11t10
	C map[string]wkDM11t10
}
type wkDM13t0 struct{ A int }
type wkDM13t1 struct {
	A map[string]wkDM13t0
	B map[string]wkDM13t0
	C map[string]wkDM13t0
}
type wkDM13t2 struct {
	A map[string]wkDM13t1
	B map[string]wkDM13t1
	C map[string]wkDM13t1
}
type wkDM13t3 struct {
	A map[string]wkDM13t2
	B map[string]wkDM13t2
	C map[string]wkDM13t2
}
type wkDM13t4 struct {
	A map[string]wkDM13t3
	B map[string]wkDM13t3
	C map[string]wkDM13t3
}
type wkDM13t5 struct {
	A map[string]wkDM13t4
	B map[string]wkDM13t4
	C map[string]wkDM13t4
}
type wkDM13t6 struct {
	A map[string]wkDM13t5
	B map[string]wkDM13t5
	C map[string]wkDM13t5
}
type wkDM13t7 struct {
	A map[string]wkDM13t6
	B map[string]wkDM13t6
	C map[string]wkDM13t6
}
type wkDM13t8 struct {
	A map[string]wkDM13t7
	B map[string]wkDM13t7
	C map[string]wkDM13t7
}
type wkDM13t9 struct {
	A map[string]wkDM13t8
	B map[string]wkDM13t8
	C map[string]wkDM13t8
}
type wkDM13t10 struct {
	A map[string]wkDM13t9
	B map[string]wkDM13t9
	C map[string]wkDM13t9
}
type wkDM13t11 struct {
	A map[string]wkDM13t10
	B map[string]wkDM13t10
	C map[string]wkDM13t10
}
type wkDM13t12 struct {
	A map[string]wkDM13t11
	B map[string]wkDM13t11
	C map[string]wkDM13t11
}
type wkDM13t13 struct {
	A map[string]wkDM13t12
	B map[string]wkDM13t12
	C map[string]wkDM13t12
}
type wkDM16t0 struct{ A int }
type wkDM16t1 struct {
	A map[string]wkDM16t0
	B map[string]wkDM16t0
	C map[string]wkDM16t0
}
type wkDM16t2 struct {
	A map[string]wkDM16t1
	B map[string]wkDM16t1
	C map[string]wkDM16t1
}
type wkDM16t3 struct {
	A map[string]wkDM16t2
	B map[string]wkDM16t2
	C map[string]wkDM16t2
}
type wkDM16t4 struct {
	A map[string]wkDM16t3
	B map[string]wkDM16t3
	C map[string]wkDM16t3
}
type wkDM16t5 struct {
	A map[string]wkDM16t4
	B map[string]wkDM16t4
	C map[string]wkDM16t4
}
type wkDM16t6 struct {
	A map[string]wkDM16t5
	B map[string]wkDM16t5
	C map[string]wkDM16t5
}
type wkDM16t7 struct {
	A map[string]wkDM16t6
	B map[string]wkDM16t6
	C map[string]wkDM16t6
}
type wkDM16t8 struct {
	A map[string]wkDM16t7
	B map[string]wkDM16t7
	C map[string]wkDM16t7
}
type wkDM16t9 struct {
	A map[string]wkDM16t8
	B map[string]wkDM16t8
	C map[string]wkDM16t8
}
type wkDM16t10 struct {
	A map[string]wkDM16t9
	B map[string]wkDM16t9
	C map[string]wkDM16t9
}
type wkDM16t11 struct {
	A map[string]wkDM16t10
	B map[string]wkDM16t10
	C map[string]wkDM16t10
}
type wkDM16t12 struct {
	A map[string]wkDM16t11
	B map[string]wkDM16t11
	C map[string]wkDM16t11
}
type wkDM16t13 struct {
	A map[string]wkDM16t12
	B map[string]wkDM16t12
	C map[string]wkDM16t12
}
type wkDM16t14 struct {
	A map[string]wkDM16t13
	B map[string]wkDM16t13
	C map[string]wkDM16t13
}
type wkDM16t15 struct {
	A map[string]wkDM16t14
	B map[string]wkDM16t14
	C map[string]wkDM16t14
}
type wkDM16t16 struct {
	A map[string]wkDM16t15
	B map[string]wkDM16t15
	C map[string]wkDM16t15
}
type wkDM40t0 struct{ A int }
type wkDM40t1 struct {
	A map[string]wkDM40t0
	B map[string]wkDM40t0
	C map[string]wkDM40t0
}
type wkDM40t2 struct {
	A map[string]wkDM40t1
	B map[string]wkDM40t1
	C map[string]wkDM40t1
}
type wkDM40t3 struct {
	A map[string]wkDM40t2
	B map[string]wkDM40t2
	C map[string]wkDM40t2
}
type wkDM40t4 struct {
	A map[string]wkDM40t3
	B map[string]wkDM40t3
	C map[string]wkDM40t3
}
type wkDM40t5 struct {
	A map[string]wkDM40t4
	B map[string]wkDM40t4
	C map[string]wkDM40t4
}
type wkDM40t6 struct {
	A map[string]wkDM40t5
	B map[string]wkDM40t5
	C map[string]wkDM40t5
}
type wkDM40t7 struct {
	A map[string]wkDM40t6
	B map[string]wkDM40t6
	C map[string]wkDM40t6
}
type wkDM40t8 struct {
	A map[string]wkDM40t7
	B map[string]wkDM40t7
	C map[string]wkDM40t7
}
type wkDM40t9 struct {
	A map[string]wkDM40t8
	B map[string]wkDM40t8
	C map[string]wkDM40t8
}
type wkDM40t10 struct {
	A map[string]wkDM40t9
	B map[string]wkDM40t9
	C map[string]wkDM40t9
}
type wkDM40t11 struct {
	A map[string]wkDM40t10
	B map[string]wkDM40t10
	C map[string]wkDM40t10
}
type wkDM40t12 struct {
	A map[string]wkDM40t11
	B map[string]wkDM40t11
	C map[string]wkDM40t11
}
type wkDM40t13 struct {
	A map[string]wkDM40t12
	B map[string]wkDM40t12
	C map[string]wkDM40t12
}
type wkDM40t14 struct {
	A map[string]wkDM40t13
	B map[string]wkDM40t13
	C map[string]wkDM40t13
}
type wkDM40t15 struct {
	A map[string]wkDM40t14
	B map[string]wkDM40t14
	C map[string]wkDM40t14
}
type wkDM40t16 struct {
	A map[string]wkDM40t15
	B map[string]wkDM40t15
	C map[string]wkDM40t15
}
type wkDM40t17 struct {
	A map[string]wkDM40t16
	B map[string]wkDM40t16
	C map[string]wkDM40t16
}
type wkDM40t18 struct {
	A map[string]wkDM40t17
	B map[string]wkDM40t17
	C map[string]wkDM40t17
}
type wkDM40t19 struct {
	A map[string]wkDM40t18
	B map[string]wkDM40t18
	C map[string]wkDM40t18
}
type wkDM40t20 struct {
	A map[string]wkDM40t19
	B map[string]wkDM40t19
	C map[string]wkDM40t19
}
type wkDM40t21 struct {
	A map[string]wkDM40t20
	B map[string]wkDM40t20
	C map[string]wkDM40t20
}
type wkDM40t22 struct {
	A map[string]wkDM40t21
	B map[string]wkDM40t21
	C map[string]wkDM40t21
}
type wkDM40t23 struct {
	A map[string]wkDM40t22
	B map[string]wkDM40t22
	C map[string]wkDM40t22
}
type wkDM40t24 struct {
	A map[string]wkDM40t23
	B map[string]wkDM40t23
	C map[string]wkDM40t23
}
type wkDM40t25 struct {
	A map[string]wkDM40t24
	B map[string]wkDM40t24
	C map[string]wkDM40t24
}
type wkDM40t26 struct {
	A map[string]wkDM40t25
	B map[string]wkDM40t25
	C map[string]wkDM40t25
}
type wkDM40t27 struct {
	A map[string]wkDM40t26
	B map[string]wkDM40t26
	C map[string]wkDM40t26
}
type wkDM40t28 struct {
	A map[string]wkDM40t27
	B map[string]wkDM40t27
	C map[string]wkDM40t27
}
type wkDM40t29 struct {
	A map[string]wkDM40t28
	B map[string]wkDM40t28
	C map[string]wkDM40t28
}
type wkDM40t30 struct {
	A map[string]wkDM40t29
	B map[string]wkDM40t29
	C map[string]wkDM40t29
}
type wkDM40t31 struct {
	A map[string]wkDM40t30
	B map[string]wkDM40t30
	C map[string]wkDM40t30
}
type wkDM40t32 struct {
	A map[string]wkDM40t31
	B map[string]wkDM40t31
	C map[string]wkDM40t31
}
type wkDM40t33 struct {
	A map[string]wkDM40t32
	B map[string]wkDM40t32
	C map[string]wkDM40t32
}
type wkDM40t34 struct {
	A map[string]wkDM40t33
	B map[string]wkDM40t33
	C map[string]wkDM40t33
}
type wkDM40t35 struct {
	A map[string]wkDM40t34
	B map[string]wkDM40t34
	C map[string]wkDM40t34
}
type wkDM40t36 struct {
	A map[string]wkDM40t35
	B map[string]wkDM40t35
	C map[string]wkDM40t35
}
type wkDM40t37 struct {
	A map[string]wkDM40t36
	B map[string]wkDM40t36
	C map[string]wkDM40t36
}
type wkDM40t38 struct {
	A map[string]wkDM40t37
	B map[string]wkDM40t37
	C map[string]wkDM40t37
}
type wkDM40t39 struct {
	A map[string]wkDM40t38
	B map[string]wkDM40t38
	C map[string]wkDM40t38
}
type wkDM40t40 struct {
	A map[string]wkDM40t39
	B map[string]wkDM40t39
	C map[string]wkDM40t39
}
type wkOM8t0 struct {
	F1 map[string]wkOM8t1
	F2 map[string]wkOM8t2
	F3 map[string]wkOM8t3
	F4 map[string]wkOM8t4
	F5 map[string]wkOM8t5
	F6 map[string]wkOM8t6
	F7 map[string]wkOM8t7
}
type wkOM8t1 struct {
	F2 map[string]wkOM8t2
	F3 map[string]wkOM8t3
	F4 map[string]wkOM8t4
	F5 map[string]wkOM8t5
	F6 map[string]wkOM8t6
	F7 map[string]wkOM8t7
}
type wkOM8t2 struct {
	F3 map[string]wkOM8t3
	F4 map[string]wkOM8t4
	F5 map[string]wkOM8t5
	F6 map[string]wkOM8t6
	F7 map[string]wkOM8t7
}
type wkOM8t3 struct {
	F4 map[string]wkOM8t4
	F5 map[string]wkOM8t5
	F6 map[string]wkOM8t6
	F7 map[string]wkOM8t7
}
type wkOM8t4 struct {
	F5 map[string]wkOM8t5
	F6 map[string]wkOM8t6
	F7 map[string]wkOM8t7
}
type wkOM8t5 struct {
	F6 map[string]wkOM8t6
	F7 map[string]wkOM8t7
}
type wkOM8t6 struct{ F7 map[string]wkOM8t7 }
type wkOM8t7 struct{ F0 map[string]wkOM8t0 }
type wkOM16t0 struct {
	F1  map[string]wkOM16t1
	F2  map[string]wkOM16t2
	F3  map[string]wkOM16t3
	F4  map[string]wkOM16t4
	F5  map[string]wkOM16t5
	F6  map[string]wkOM16t6
	F7  map[string]wkOM16t7
	F8  map[string]wkOM16t8
	F9  map[string]wkOM16t9
	F10 map[string]wkOM16t10
	F11 map[string]wkOM16t11
	F12 map[string]wkOM16t12
	F13 map[string]wkOM16t13
	F14 map[string]wkOM16t14
	F15 map[string]wkOM16t15
}
type wkOM16t1 struct {
	F2  map[string]wkOM16t2
	F3  map[string]wkOM16t3
	F4  map[string]wkOM16t4
	F5  map[string]wkOM16t5
	F6  map[string]wkOM16t6
	F7  map[string]wkOM16t7
	F8  map[string]wkOM16t8
	F9  map[string]wkOM16t9
	F10 map[string]wkOM16t10
	F11 map[string]wkOM16t11
	F12 map[string]wkOM16t12
	F13 map[string]wkOM16t13
	F14 map[string]wkOM16t14
	F15 map[string]wkOM16t15
}
type wkOM16t2 struct {
	F3  map[string]wkOM16t3
	F4  map[string]wkOM16t4
	F5  map[string]wkOM16t5
	F6  map[string]wkOM16t6
	F7  map[string]wkOM16t7
	F8  map[string]wkOM16t8
	F9  map[string]wkOM16t9
	F10 map[string]wkOM16t10
	F11 map[string]wkOM16t11
	F12 map[string]wkOM16t12
	F13 map[string]wkOM16t13
	F14 map[string]wkOM16t14
	F15 map[string]wkOM16t15
}
type wkOM16t3 struct {
	F4  map[string]wkOM16t4
	F5  map[string]wkOM16t5
	F6  map[string]wkOM16t6
	F7  map[string]wkOM16t7
	F8  map[string]wkOM16t8
	F9  map[string]wkOM16t9
	F10 map[string]wkOM16t10
	F11 map[string]wkOM16t11
	F12 map[string]wkOM16t12
	F13 map[string]wkOM16t13
	F14 map[string]wkOM16t14
	F15 map[string]wkOM16t15
}
type wkOM16t4 struct {
	F5  map[string]wkOM16t5
	F6  map[string]wkOM16t6
	F7  map[string]wkOM16t7
	F8  map[string]wkOM16t8
	F9  map[string]wkOM16t9
	F10 map[string]wkOM16t10
	F11 map[string]wkOM16t11
	F12 map[string]wkOM16t12
	F13 map[string]wkOM16t13
	F14 map[string]wkOM16t14
	F15 map[string]wkOM16t15
}
type wkOM16t5 struct {
	F6  map[string]wkOM16t6
	F7  map[string]wkOM16t7
	F8  map[string]wkOM16t8
	F9  map[string]wkOM16t9
	F10 map[string]wkOM16t10
	F11 map[string]wkOM16t11
	F12 map[string]wkOM16t12
	F13 map[string]wkOM16t13
	F14 map[string]wkOM16t14
	F15 map[string]wkOM16t15
}
type wkOM16t6 struct {
	F7  map[string]wkOM16t7
	F8  map[string]wkOM16t8
	F9  map[string]wkOM16t9
	F10 map[string]wkOM16t10
	F11 map[string]wkOM16t11
	F12 map[string]wkOM16t12
	F13 map[string]wkOM16t13
	F14 map[string]wkOM16t14
	F15 map[string]wkOM16t15
}
type wkOM16t7 struct {
	F8  map[string]wkOM16t8
	F9  map[string]wkOM16t9
	F10 map[string]wkOM16t10
	F11 map[string]wkOM16t11
	F12 map[string]wkOM16t12
	F13 map[string]wkOM16t13
	F14 map[string]wkOM16t14
	F15 map[string]wkOM16t15
}
type wkOM16t8 struct {
	F9  map[string]wkOM16t9
	F10 map[string]wkOM16t10
	F11 map[string]wkOM16t11
	F12 map[string]wkOM16t12
	F13 map[string]wkOM16t13
	F14 map[string]wkOM16t14
	F15 map[string]wkOM16t15
}
type wkOM16t9 struct {
	F10 map[string]wkOM16t10
	F11 map[string]wkOM16t11
	F12 map[string]wkOM16t12
	F13 map[string]wkOM16t13
	F14 map[string]wkOM16t14
	F15 map[string]wkOM16t15
}
type wkOM16t10 struct {
	F11 map[string]wkOM16t11
	F12 map[string]wkOM16t12
	F13 map[string]wkOM16t13
	F14 map[string]wkOM16t14
	F15 map[string]wkOM16t15
}
type wkOM16t11 struct {
	F12 map[string]wkOM16t12
	F13 map[string]wkOM16t13
	F14 map[string]wkOM16t14
	F15 map[string]wkOM16t15
}
type wkOM16t12 struct {
	F13 map[string]wkOM16t13
	F14 map[string]wkOM16t14
	F15 map[string]wkOM16t15
}
type wkOM16t13 struct {
	F14 map[string]wkOM16t14
	F15 map[string]wkOM16t15
}
type wkOM16t14 struct{ F15 map[string]wkOM16t15 }
type wkOM16t15 struct{ F0 map[string]wkOM16t0 }
type wkOM20t0 struct {
	F1  map[string]wkOM20t1
	F2  map[string]wkOM20t2
	F3  map[string]wkOM20t3
	F4  map[string]wkOM20t4
	F5  map[string]wkOM20t5
	F6  map[string]wkOM20t6
	F7  map[string]wkOM20t7
	F8  map[string]wkOM20t8
	F9  map[string]wkOM20t9
	F10 map[string]wkOM20t10
	F11 map[string]wkOM20t11
	F12 map[string]wkOM20t12
	F13 map[string]wkOM20t13
	F14 map[string]wkOM20t14
	F15 map[string]wkOM20t15
	F16 map[string]wkOM20t16
	F17 map[string]wkOM20t17
	F18 map[string]wkOM20t18
	F19 map[string]wkOM20t19
}
type wkOM20t1 struct {
	F2  map[string]wkOM20t2
	F3  map[string]wkOM20t3
	F4  map[string]wkOM20t4
	F5  map[string]wkOM20t5
	F6  map[string]wkOM20t6
	F7  map[string]wkOM20t7
	F8  map[string]wkOM20t8
	F9  map[string]wkOM20t9
	F10 map[string]wkOM20t10
	F11 map[string]wkOM20t11
	F12 map[string]wkOM20t12
	F13 map[string]wkOM20t13
	F14 map[string]wkOM20t14
	F15 map[string]wkOM20t15
	F16 map[string]wkOM20t16
	F17 map[string]wkOM20t17
	F18 map[string]wkOM20t18
	F19 map[string]wkOM20t19
}
type wkOM20t2 struct {
	F3  map[string]wkOM20t3
	F4  map[string]wkOM20t4
	F5  map[string]wkOM20t5
	F6  map[string]wkOM20t6
	F7  map[string]wkOM20t7
	F8  map[string]wkOM20t8
	F9  map[string]wkOM20t9
	F10 map[string]wkOM20t10
	F11 map[string]wkOM20t11
	F12 map[string]wkOM20t12
	F13 map[string]wkOM20t13
	F14 map[string]wkOM20t14
	F15 map[string]wkOM20t15
	F16 map[string]wkOM20t16
	F17 map[string]wkOM20t17
	F18 map[string]wkOM20t18
	F19 map[string]wkOM20t19
}
type wkOM20t3 struct {
	F4  map[string]wkOM20t4
	F5  map[string]wkOM20t5
	F6  map[string]wkOM20t6
	F7  map[string]wkOM20t7
	F8  map[string]wkOM20t8
	F9  map[string]wkOM20t9
	F10 map[string]wkOM20t10
	F11 map[string]wkOM20t11
	F12 map[string]wkOM20t12
	F13 map[string]wkOM20t13
	F14 map[string]wkOM20t14
	F15 map[string]wkOM20t15
	F16 map[string]wkOM20t16
	F17 map[string]wkOM20t17
	F18 map[string]wkOM20t18
	F19 map[string]wkOM20t19
}
type wkOM20t4 struct {
	F5  map[string]wkOM20t5
	F6  map[string]wkOM20t6
	F7  map[string]wkOM20t7
	F8  map[string]wkOM20t8
	F9  map[string]wkOM20t9
	F10 map[string]wkOM20t10
	F11 map[string]wkOM20t11
	F12 map[string]wkOM20t12
	F13 map[string]wkOM20t13
	F14 map[string]wkOM20t14
	F15 map[string]wkOM20t15
	F16 map[string]wkOM20t16
	F17 map[string]wkOM20t17
	F18 map[string]wkOM20t18
	F19 map[string]wkOM20t19
}
type wkOM20t5 struct {
	F6  map[string]wkOM20t6
	F7  map[string]wkOM20t7
	F8  map[string]wkOM20t8
	F9  map[string]wkOM20t9
	F10 map[string]wkOM20t10
	F11 map[string]wkOM20t11
	F12 map[string]wkOM20t12
	F13 map[string]wkOM20t13
	F14 map[string]wkOM20t14
	F15 map[string]wkOM20t15
	F16 map[string]wkOM20t16
	F17 map[string]wkOM20t17
	F18 map[string]wkOM20t18
	F19 map[string]wkOM20t19
}
type wkOM20t6 struct {
	F7  map[string]wkOM20t7
	F8  map[string]wkOM20t8
	F9  map[string]wkOM20t9
	F10 map[string]wkOM20t10
	F11 map[string]wkOM20t11
	F12 map[string]wkOM20t12
	F13 map[string]wkOM20t13
	F14 map[string]wkOM20t14
	F15 map[string]wkOM20t15
	F16 map[string]wkOM20t16
	F17 map[string]wkOM20t17
	F18 map[string]wkOM20t18
	F19 map[string]wkOM20t19
}
type wkOM20t7 struct {
	F8  map[string]wkOM20t8
	F9  map[string]wkOM20t9
	F10 map[string]wkOM20t10
	F11 map[string]wkOM20t11
	F12 map[string]wkOM20t12
	F13 map[string]wkOM20t13
	F14 map[string]wkOM20t14
	F15 map[string]wkOM20t15
	F16 map[string]wkOM20t16
	F17 map[string]wkOM20t17
	F18 map[string]wkOM20t18
	F19 map[string]wkOM20t19
}
type wkOM20t8 struct {
	F9  map[string]wkOM20t9
	F10 map[string]wkOM20t10
	F11 map[string]wkOM20t11
	F12 map[string]wkOM20t12
	F13 map[string]wkOM20t13
	F14 map[string]wkOM20t14
	F15 map[string]wkOM20t15
	F16 map[string]wkOM20t16
	F17 map[string]wkOM20t17
	F18 map[string]wkOM20t18
	F19 map[string]wkOM20t19
}
type wkOM20t9 struct {
	F10 map[string]wkOM20t10
	F11 map[string]wkOM20t11
	F12 map[string]wkOM20t12
	F13 map[string]wkOM20t13
	F14 map[string]wkOM20t14
	F15 map[string]wkOM20t15
	F16 map[string]wkOM20t16
	F17 map[string]wkOM20t17
	F18 map[string]wkOM20t18
	F19 map[string]wkOM20t19
}
type wkOM20t10 struct {
	F11 map[string]wkOM20t11
	F12 map[string]wkOM20t12
	F13 map[string]wkOM20t13
	F14 map[string]wkOM20t14
	F15 map[string]wkOM20t15
	F16 map[string]wkOM20t16
	F17 map[string]wkOM20t17
	F18 map[string]wkOM20t18
	F19 map[string]wkOM20t19
}
type wkOM20t11 struct {
	F12 map[string]wkOM20t12
	F13 map[string]wkOM20t13
	F14 map[string]wkOM20t14
	F15 map[string]wkOM20t15
	F16 map[string]wkOM20t16
	F17 map[string]wkOM20t17
	F18 map[string]wkOM20t18
	F19 map[string]wkOM20t19
}
type wkOM20t12 struct {
	F13 map[string]wkOM20t13
	F14 map[string]wkOM20t14
	F15 map[string]wkOM20t15
	F16 map[string]wkOM20t16
	F17 map[string]wkOM20t17
	F18 map[string]wkOM20t18
	F19 map[string]wkOM20t19
}
type wkOM20t13 struct {
	F14 map[string]wkOM20t14
	F15 map[string]wkOM20t15
	F16 map[string]wkOM20t16
	F17 map[string]wkOM20t17
	F18 map[string]wkOM20t18
	F19 map[string]wkOM20t19
}
type wkOM20t14 struct {
	F15 map[string]wkOM20t15
	F16 map[string]wkOM20t16
	F17 map[string]wkOM20t17
	F18 map[string]wkOM20t18
	F19 map[string]wkOM20t19
}
type wkOM20t15 struct {
	F16 map[string]wkOM20t16
	F17 map[string]wkOM20t17
	F18 map[string]wkOM20t18
	F19 map[string]wkOM20t19
}
type wkOM20t16 struct {
	F17 map[string]wkOM20t17
	F18 map[string]wkOM20t18
	F19 map[string]wkOM20t19
}
type wkOM20t17 struct {
	F18 map[string]wkOM20t18
	F19 map[string]wkOM20t19
}
type wkOM20t18 struct{ F19 map[string]wkOM20t19 }
type wkOM20t19 struct{ F0 map[string]wkOM20t0 }
type wkOM24t0 struct {
	F1  map[string]wkOM24t1
	F2  map[string]wkOM24t2
	F3  map[string]wkOM24t3
	F4  map[string]wkOM24t4
	F5  map[string]wkOM24t5
	F6  map[string]wkOM24t6
	F7  map[string]wkOM24t7
	F8  map[string]wkOM24t8
	F9  map[string]wkOM24t9
	F10 map[string]wkOM24t10
	F11 map[string]wkOM24t11
	F12 map[string]wkOM24t12
	F13 map[string]wkOM24t13
	F14 map[string]wkOM24t14
	F15 map[string]wkOM24t15
	F16 map[string]wkOM24t16
	F17 map[string]wkOM24t17
	F18 map[string]wkOM24t18
	F19 map[string]wkOM24t19
	F20 map[string]wkOM24t20
	F21 map[string]wkOM24t21
	F22 map[string]wkOM24t22
	F23 map[string]wkOM24t23
}
type wkOM24t1 struct {
	F2  map[string]wkOM24t2
	F3  map[string]wkOM24t3
	F4  map[string]wkOM24t4
	F5  map[string]wkOM24t5
	F6  map[string]wkOM24t6
	F7  map[string]wkOM24t7
	F8  map[string]wkOM24t8
	F9  map[string]wkOM24t9
	F10 map[string]wkOM24t10
	F11 map[string]wkOM24t11
	F12 map[string]wkOM24t12
	F13 map[string]wkOM24t13
	F14 map[string]wkOM24t14
	F15 map[string]wkOM24t15
	F16 map[string]wkOM24t16
	F17 map[string]wkOM24t17
	F18 map[string]wkOM24t18
	F19 map[string]wkOM24t19
	F20 map[string]wkOM24t20
	F21 map[string]wkOM24t21
	F22 map[string]wkOM24t22
	F23 map[string]wkOM24t23
}
type wkOM24t2 struct {
	F3  map[string]wkOM24t3
	F4  map[string]wkOM24t4
	F5  map[string]wkOM24t5
	F6  map[string]wkOM24t6
	F7  map[string]wkOM24t7
	F8  map[string]wkOM24t8
	F9  map[string]wkOM24t9
	F10 map[string]wkOM24t10
	F11 map[string]wkOM24t11
	F12 map[string]wkOM24t12
	F13 map[string]wkOM24t13
	F14 map[string]wkOM24t14
	F15 map[string]wkOM24t15
	F16 map[string]wkOM24t16
	F17 map[string]wkOM24t17
	F18 map[string]wkOM24t18
	F19 map[string]wkOM24t19
	F20 map[string]wkOM24t20
	F21 map[string]wkOM24t21
	F22 map[string]wkOM24t22
	F23 map[string]wkOM24t23
}
type wkOM24t3 struct {
	F4  map[string]wkOM24t4
	F5  map[string]wkOM24t5
	F6  map[string]wkOM24t6
	F7  map[string]wkOM24t7
	F8  map[string]wkOM24t8
	F9  map[string]wkOM24t9
	F10 map[string]wkOM24t10
	F11 map[string]wkOM24t11
	F12 map[string]wkOM24t12
	F13 map[string]wkOM24t13
	F14 map[string]wkOM24t14
	F15 map[string]wkOM24t15
	F16 map[string]wkOM24t16
	F17 map[string]wkOM24t17
	F18 map[string]wkOM24t18
	F19 map[string]wkOM24t19
	F20 map[string]wkOM24t20
	F21 map[string]wkOM24t21
	F22 map[string]wkOM24t22
	F23 map[string]wkOM24t23
}
type wkOM24t4 struct {
	F5  map[string]wkOM24t5
	F6  map[string]wkOM24t6
	F7  map[string]wkOM24t7
	F8  map[string]wkOM24t8
	F9  map[string]wkOM24t9
	F10 map[string]wkOM24t10
	F11 map[string]wkOM24t11
	F12 map[string]wkOM24t12
	F13 map[string]wkOM24t13
	F14 map[string]wkOM24t14
	F15 map[string]wkOM24t15
	F16 map[string]wkOM24t16
	F17 map[string]wkOM24t17
	F18 map[string]wkOM24t18
	F19 map[string]wkOM24t19
	F20 map[string]wkOM24t20
	F21 map[string]wkOM24t21
	F22 map[string]wkOM24t22
	F23 map[string]wkOM24t23
}
type wkOM24t5 struct {
	F6  map[string]wkOM24t6
	F7  map[string]wkOM24t7
	F8  map[string]wkOM24t8
	F9  map[string]wkOM24t9
	F10 map[string]wkOM24t10
	F11 map[string]wkOM24t11
	F12 map[string]wkOM24t12
	F13 map[string]wkOM24t13
	F14 map[string]wkOM24t14
	F15 map[string]wkOM24t15
	F16 map[string]wkOM24t16
	F17 map[string]wkOM24t17
	F18 map[string]wkOM24t18
	F19 map[string]wkOM24t19
	F20 map[string]wkOM24t20
	F21 map[string]wkOM24t21
	F22 map[string]wkOM24t22
	F23 map[string]wkOM24t23
}
type wkOM24t6 struct {
	F7  map[string]wkOM24t7
	F8  map[string]wkOM24t8
	F9  map[string]wkOM24t9
	F10 map[string]wkOM24t10
	F11 map[string]wkOM24t11
	F12 map[string]wkOM24t12
	F13 map[string]wkOM24t13
	F14 map[string]wkOM24t14
	F15 map[string]wkOM24t15
	F16 map[string]wkOM24t16
	F17 map[string]wkOM24t17
	F18 map[string]wkOM24t18
	F19 map[string]wkOM24t19
	F20 map[string]wkOM24t20
	F21 map[string]wkOM24t21
	F22 map[string]wkOM24t22
	F23 map[string]wkOM24t23
}
type wkOM24t7 struct {
	F8  map[string]wkOM24t8
	F9  map[string]wkOM24t9
	F10 map[string]wkOM24t10
	F11 map[string]wkOM24t11
	F12 map[string]wkOM24t12
	F13 map[string]wkOM24t13
	F14 map[string]wkOM24t14
	F15 map[string]wkOM24t15
	F16 map[string]wkOM24t16
	F17 map[string]wkOM24t17
	F18 map[string]wkOM24t18
	F19 map[string]wkOM24t19
	F20 map[string]wkOM24t20
	F21 map[string]wkOM24t21
	F22 map[string]wkOM24t22
	F23 map[string]wkOM24t23
}
type wkOM24t8 struct {
	F9  map[string]wkOM24t9
	F10 map[string]wkOM24t10
	F11 map[string]wkOM24t11
	F12 map[string]wkOM24t12
	F13 map[string]wkOM24t13
	F14 map[string]wkOM24t14
	F15 map[string]wkOM24t15
	F16 map[string]wkOM24t16
	F17 map[string]wkOM24t17
	F18 map[string]wkOM24t18
	F19 map[string]wkOM24t19
	F20 map[string]wkOM24t20
	F21 map[string]wkOM24t21
	F22 map[string]wkOM24t22
	F23 map[string]wkOM24t23
}
type wkOM24t9 struct {
	F10 map[string]wkOM24t10
	F11 map[string]wkOM24t11
	F12 map[string]wkOM24t12
	F13 map[string]wkOM24t13
	F14 map[string]wkOM24t14
	F15 map[string]wkOM24t15
	F16 map[string]wkOM24t16
	F17 map[string]wkOM24t17
	F18 map[string]wkOM24t18
	F19 map[string]wkOM24t19
	F20 map[string]wkOM24t20
	F21 map[string]wkOM24t21
	F22 map[string]wkOM24t22
	F23 map[string]wkOM24t23
}
type wkOM24t10 struct {
	F11 map[string]wkOM24t11
	F12 map[string]wkOM24t12
	F13 map[string]wkOM24t13
	F14 map[string]wkOM24t14
	F15 map[string]wkOM24t15
	F16 map[string]wkOM24t16
	F17 map[string]wkOM24t17
	F18 map[string]wkOM24t18
	F19 map[string]wkOM24t19
	F20 map[string]wkOM24t20
	F21 map[string]wkOM24t21
	F22 map[string]wkOM24t22
	F23 map[string]wkOM24t23
}
type wkOM24t11 struct {
	F12 map[string]wkOM24t12
	F13 map[string]wkOM24t13
	F14 map[string]wkOM24t14
	F15 map[string]wkOM24t15
	F16 map[string]wkOM24t16
	F17 map[string]wkOM24t17
	F18 map[string]wkOM24t18
	F19 map[string]wkOM24t19
	F20 map[string]wkOM24t20
	F21 map[string]wkOM24t21
	F22 map[string]wkOM24t22
	F23 map[string]wkOM24t23
}
type wkOM24t12 struct {
	F13 map[string]wkOM24t13
	F14 map[string]wkOM24t14
	F15 map[string]wkOM24t15
	F16 map[string]wkOM24t16
	F17 map[string]wkOM24t17
	F18 map[string]wkOM24t18
	F19 map[string]wkOM24t19
	F20 map[string]wkOM24t20
	F21 map[string]wkOM24t21
	F22 map[string]wkOM24t22
	F23 map[string]wkOM24t23
}
type wkOM24t13 struct {
	F14 map[string]wkOM24t14
	F15 map[string]wkOM24t15
	F16 map[string]wkOM24t16
	F17 map[string]wkOM24t17
	F18 map[string]wkOM24t18
	F19 map[string]wkOM24t19
	F20 map[string]wkOM24t20
	F21 map[string]wkOM24t21
	F22 map[string]wkOM24t22
	F23 map[string]wkOM24t23
}
type wkOM24t14 struct {
	F15 map[string]wkOM24t15
	F16 map[string]wkOM24t16
	F17 map[string]wkOM24t17
	F18 map[string]wkOM24t18
	F19 map[string]wkOM24t19
	F20 map[string]wkOM24t20
	F21 map[string]wkOM24t21
	F22 map[string]wkOM24t22
	F23 map[string]wkOM24t23
}
type wkOM24t15 struct {
	F16 map[string]wkOM24t16
	F17 map[string]wkOM24t17
	F18 map[string]wkOM24t18
	F19 map[string]wkOM24t19
	F20 map[string]wkOM24t20
	F21 map[string]wkOM24t21
	F22 map[string]wkOM24t22
	F23 map[string]wkOM24t23
}
type wkOM24t16 struct {
	F17 map[string]wkOM24t17
	F18 map[string]wkOM24t18
	F19 map[string]wkOM24t19
	F20 map[string]wkOM24t20
	F21 map[string]wkOM24t21
	F22 map[string]wkOM24t22
	F23 map[string]wkOM24t23
}
type wkOM24t17 struct {
	F18 map[string]wkOM24t18
	F19 map[string]wkOM24t19
	F20 map[string]wkOM24t20
	F21 map[string]wkOM24t21
	F22 map[string]wkOM24t22
	F23 map[string]wkOM24t23
}
type wkOM24t18 struct {
	F19 map[string]wkOM24t19
	F20 map[string]wkOM24t20
	F21 map[string]wkOM24t21
	F22 map[string]wkOM24t22
	F23 map[string]wkOM24t23
}
type wkOM24t19 struct {
	F20 map[string]wkOM24t20
	F21 map[string]wkOM24t21
	F22 map[string]wkOM24t22
	F23 map[string]wkOM24t23
}
type wkOM24t20 struct {
	F21 map[string]wkOM24t21
	F22 map[string]wkOM24t22
	F23 map[string]wkOM24t23
}
type wkOM24t21 struct {
	F22 map[string]wkOM24t22
	F23 map[string]wkOM24t23
}
type wkOM24t22 struct{ F23 map[string]wkOM24t23 }
type wkOM24t23 struct{ F0 map[string]wkOM24t0 }
type wkOM40t0 struct {
	F1  map[string]wkOM40t1
	F2  map[string]wkOM40t2
	F3  map[string]wkOM40t3
	F4  map[string]wkOM40t4
	F5  map[string]wkOM40t5
	F6  map[string]wkOM40t6
	F7  map[string]wkOM40t7
	F8  map[string]wkOM40t8
	F9  map[string]wkOM40t9
	F10 map[string]wkOM40t10
	F11 map[string]wkOM40t11
	F12 map[string]wkOM40t12
	F13 map[string]wkOM40t13
	F14 map[string]wkOM40t14
	F15 map[string]wkOM40t15
	F16 map[string]wkOM40t16
	F17 map[string]wkOM40t17
	F18 map[string]wkOM40t18
	F19 map[string]wkOM40t19
	F20 map[string]wkOM40t20
	F21 map[string]wkOM40t21
	F22 map[string]wkOM40t22
	F23 map[string]wkOM40t23
	F24 map[string]wkOM40t24
	F25 map[string]wkOM40t25
	F26 map[string]wkOM40t26
	F27 map[string]wkOM40t27
	F28 map[string]wkOM40t28
	F29 map[string]wkOM40t29
	F30 map[string]wkOM40t30
	F31 map[string]wkOM40t31
	F32 map[string]wkOM40t32
	F33 map[string]wkOM40t33
	F34 map[string]wkOM40t34
	F35 map[string]wkOM40t35
	F36 map[string]wkOM40t36
	F37 map[string]wkOM40t37
	F38 map[string]wkOM40t38
	F39 map[string]wkOM40t39
}
type wkOM40t1 struct {
	F2  map[string]wkOM40t2
	F3  map[string]wkOM40t3
	F4  map[string]wkOM40t4
	F5  map[string]wkOM40t5
	F6  map[string]wkOM40t6
	F7  map[string]wkOM40t7
	F8  map[string]wkOM40t8
	F9  map[string]wkOM40t9
	F10 map[string]wkOM40t10
	F11 map[string]wkOM40t11
	F12 map[string]wkOM40t12
	F13 map[string]wkOM40t13
	F14 map[string]wkOM40t14
	F15 map[string]wkOM40t15
	F16 map[string]wkOM40t16
	F17 map[string]wkOM40t17
	F18 map[string]wkOM40t18
	F19 map[string]wkOM40t19
	F20 map[string]wkOM40t20
	F21 map[string]wkOM40t21
	F22 map[string]wkOM40t22
	F23 map[string]wkOM40t23
	F24 map[string]wkOM40t24
	F25 map[string]wkOM40t25
	F26 map[string]wkOM40t26
	F27 map[string]wkOM40t27
	F28 map[string]wkOM40t28
	F29 map[string]wkOM40t29
	F30 map[string]wkOM40t30
	F31 map[string]wkOM40t31
	F32 map[string]wkOM40t32
	F33 map[string]wkOM40t33
	F34 map[string]wkOM40t34
	F35 map[string]wkOM40t35
	F36 map[string]wkOM40t36
	F37 map[string]wkOM40t37
	F38 map[string]wkOM40t38
	F39 map[string]wkOM40t39
}
type wkOM40t2 struct {
	F3  map[string]wkOM40t3
	F4  map[string]wkOM40t4
	F5  map[string]wkOM40t5
	F6  map[string]wkOM40t6
	F7  map[string]wkOM40t7
	F8  map[string]wkOM40t8
	F9  map[string]wkOM40t9
	F10 map[string]wkOM40t10
	F11 map[string]wkOM40t11
	F12 map[string]wkOM40t12
	F13 map[string]wkOM40t13
	F14 map[string]wkOM40t14
	F15 map[string]wkOM40t15
	F16 map[string]wkOM40t16
	F17 map[string]wkOM40t17
	F18 map[string]wkOM40t18
	F19 map[string]wkOM40t19
	F20 map[string]wkOM40t20
	F21 map[string]wkOM40t21
	F22 map[string]wkOM40t22
	F23 map[string]wkOM40t23
	F24 map[string]wkOM40t24
	F25 map[string]wkOM40t25
	F26 map[string]wkOM40t26
	F27 map[string]wkOM40t27
	F28 map[string]wkOM40t28
	F29 map[string]wkOM40t29
	F30 map[string]wkOM40t30
	F31 map[string]wkOM40t31
	F32 map[string]wkOM40t32
	F33 map[string]wkOM40t33
	F34 map[string]wkOM40t34
	F35 map[string]wkOM40t35
	F36 map[string]wkOM40t36
	F37 map[string]wkOM40t37
	F38 map[string]wkOM40t38
	F39 map[string]wkOM40t39
}
type wkOM40t3 struct {
	F4  map[string]wkOM40t4
	F5  map[string]wkOM40t5
	F6  map[string]wkOM40t6
	F7  map[string]wkOM40t7
	F8  map[string]wkOM40t8
	F9  map[string]wkOM40t9
	F10 map[string]wkOM40t10
	F11 map[string]wkOM40t11
	F12 map[string]wkOM40t12
	F13 map[string]wkOM40t13
	F14 map[string]wkOM40t14
	F15 map[string]wkOM40t15
	F16 map[string]wkOM40t16
	F17 map[string]wkOM40t17
	F18 map[string]wkOM40t18
	F19 map[string]wkOM40t19
	F20 map[string]wkOM40t20
	F21 map[string]wkOM40t21
	F22 map[string]wkOM40t22
	F23 map[string]wkOM40t23
	F24 map[string]wkOM40t24
	F25 map[string]wkOM40t25
	F26 map[string]wkOM40t26
	F27 map[string]wkOM40t27
	F28 map[string]wkOM40t28
	F29 map[string]wkOM40t29
	F30 map[string]wkOM40t30
	F31 map[string]wkOM40t31
	F32 map[string]wkOM40t32
	F33 map[string]wkOM40t33
	F34 map[string]wkOM40t34
	F35 map[string]wkOM40t35
	F36 map[string]wkOM40t36
	F37 map[string]wkOM40t37
	F38 map[string]wkOM40t38
	F39 map[string]wkOM40t39
}
type wkOM40t4 struct {
	F5  map[string]wkOM40t5
	F6  map[string]wkOM40t6
	F7  map[string]wkOM40t7
	F8  map[string]wkOM40t8
	F9  map[string]wkOM40t9
	F10 map[string]wkOM40t10
	F11 map[string]wkOM40t11
	F12 map[string]wkOM40t12
	F13 map[string]wkOM40t13
	F14 map[string]wkOM40t14
	F15 map[string]wkOM40t15
	F16 map[string]wkOM40t16
	F17 map[string]wkOM40t17
	F18 map[string]wkOM40t18
	F19 map[string]wkOM40t19
	F20 map[string]wkOM40t20
	F21 map[string]wkOM40t21
	F22 map[string]wkOM40t22
	F23 map[string]wkOM40t23
	F24 map[string]wkOM40t24
	F25 map[string]wkOM40t25
	F26 map[string]wkOM40t26
	F27 map[string]wkOM40t27
	F28 map[string]wkOM40t28
	F29 map[string]wkOM40t29
	F30 map[string]wkOM40t30
	F31 map[string]wkOM40t31
	F32 map[string]wkOM40t32
	F33 map[string]wkOM40t33
	F34 map[string]wkOM40t34
	F35 map[string]wkOM40t35
	F36 map[string]wkOM40t36
	F37 map[string]wkOM40t37
	F38 map[string]wkOM40t38
	F39 map[string]wkOM40t39
}
type wkOM40t5 struct {
	F6  map[string]wkOM40t6
	F7  map[string]wkOM40t7
	F8  map[string]wkOM40t8
	F9  map[string]wkOM40t9
	F10 map[string]wkOM40t10
	F11 map[string]wkOM40t11
	F12 map[string]wkOM40t12
	F13 map[string]wkOM40t13
	F14 map[string]wkOM40t14
	F15 map[string]wkOM40t15
	F16 map[string]wkOM40t16
	F17 map[string]wkOM40t17
	F18 map[string]wkOM40t18
	F19 map[string]wkOM40t19
	F20 map[string]wkOM40t20
	F21 map[string]wkOM40t21
	F22 map[string]wkOM40t22
	F23 map[string]wkOM40t23
	F24 map[string]wkOM40t24
	F25 map[string]wkOM40t25
	F26 map[string]wkOM40t26
	F27 map[string]wkOM40t27
	F28 map[string]wkOM40t28
	F29 map[string]wkOM40t29
	F30 map[string]wkOM40t30
	F31 map[string]wkOM40t31
	F32 map[string]wkOM40t32
	F33 map[string]wkOM40t33
	F34 map[string]wkOM40t34
	F35 map[string]wkOM40t35
	F36 map[string]wkOM40t36
	F37 map[string]wkOM40t37
	F38 map[string]wkOM40t38
	F39 map[string]wkOM40t39
}
type wkOM40t6 struct {
	F7  map[string]wkOM40t7
	F8  map[string]wkOM40t8
	F9  map[string]wkOM40t9
	F10 map[string]wkOM40t10
	F11 map[string]wkOM40t11
	F12 map[string]wkOM40t12
	F13 map[string]wkOM40t13
	F14 map[string]wkOM40t14
	F15 map[string]wkOM40t15
	F16 map[string]wkOM40t16
	F17 map[string]wkOM40t17
	F18 map[string]wkOM40t18
	F19 map[string]wkOM40t19
	F20 map[string]wkOM40t20
	F21 map[string]wkOM40t21
	F22 map[string]wkOM40t22
	F23 map[string]wkOM40t23
	F24 map[string]wkOM40t24
	F25 map[string]wkOM40t25
	F26 map[string]wkOM40t26
	F27 map[string]wkOM40t27
	F28 map[string]wkOM40t28
	F29 map[string]wkOM40t29
	F30 map[string]wkOM40t30
	F31 map[string]wkOM40t31
	F32 map[string]wkOM40t32
	F33 map[string]wkOM40t33
	F34 map[string]wkOM40t34
	F35 map[string]wkOM40t35
	F36 map[string]wkOM40t36
	F37 map[string]wkOM40t37
	F38 map[string]wkOM40t38
	F39 map[string]wkOM40t39
}
type wkOM40t7 struct {
	F8  map[string]wkOM40t8
	F9  map[string]wkOM40t9
	F10 map[string]wkOM40t10
	F11 map[string]wkOM40t11
	F12 map[string]wkOM40t12
	F13 map[string]wkOM40t13
	F14 map[string]wkOM40t14
	F15 map[string]wkOM40t15
	F16 map[string]wkOM40t16
	F17 map[string]wkOM40t17
	F18 map[string]wkOM40t18
	F19 map[string]wkOM40t19
	F20 map[string]wkOM40t20
	F21 map[string]wkOM40t21
	F22 map[string]wkOM40t22
	F23 map[string]wkOM40t23
	F24 map[string]wkOM40t24
	F25 map[string]wkOM40t25
	F26 map[string]wkOM40t26
	F27 map[string]wkOM40t27
	F28 map[string]wkOM40t28
	F29 map[string]wkOM40t29
	F30 map[string]wkOM40t30
	F31 map[string]wkOM40t31
	F32 map[string]wkOM40t32
	F33 map[string]wkOM40t33
	F34 map[string]wkOM40t34
	F35 map[string]wkOM40t35
	F36 map[string]wkOM40t36
	F37 map[string]wkOM40t37
	F38 map[string]wkOM40t38
	F39 map[string]wkOM40t39
}
type wkOM40t8 struct {
	F9  map[string]wkOM40t9
	F10 map[string]wkOM40t10
	F11 map[string]wkOM40t11
	F12 map[string]wkOM40t12
	F13 map[string]wkOM40t13
	F14 map[string]wkOM40t14
	F15 map[string]wkOM40t15
	F16 map[string]wkOM40t16
	F17 map[string]wkOM40t17
	F18 map[string]wkOM40t18
	F19 map[string]wkOM40t19
	F20 map[string]wkOM40t20
	F21 map[string]wkOM40t21
	F22 map[string]wkOM40t22
	F23 map[string]wkOM40t23
	F24 map[string]wkOM40t24
	F25 map[string]wkOM40t25
	F26 map[string]wkOM40t26
	F27 map[string]wkOM40t27
	F28 map[string]wkOM40t28
	F29 map[string]wkOM40t29
	F30 map[string]wkOM40t30
	F31 map[string]wkOM40t31
	F32 map[string]wkOM40t32
	F33 map[string]wkOM40t33
	F34 map[string]wkOM40t34
	F35 map[string]wkOM40t35
	F36 map[string]wkOM40t36
	F37 map[string]wkOM40t37
	F38 map[string]wkOM40t38
	F39 map[string]wkOM40t39
}
type wkOM40t9 struct {
	F10 map[string]wkOM40t10
	F11 map[string]wkOM40t11
	F12 map[string]wkOM40t12
	F13 map[string]wkOM40t13
	F14 map[string]wkOM40t14
	F15 map[string]wkOM40t15
	F16 map[string]wkOM40t16
	F17 map[string]wkOM40t17
	F18 map[string]wkOM40t18
	F19 map[string]wkOM40t19
	F20 map[string]wkOM40t20
	F21 map[string]wkOM40t21
	F22 map[string]wkOM40t22
	F23 map[string]wkOM40t23
	F24 map[string]wkOM40t24
	F25 map[string]wkOM40t25
	F26 map[string]wkOM40t26
	F27 map[string]wkOM40t27
	F28 map[string]wkOM40t28
	F29 map[string]wkOM40t29
	F30 map[string]wkOM40t30
	F31 map[string]wkOM40t31
	F32 map[string]wkOM40t32
	F33 map[string]wkOM40t33
	F34 map[string]wkOM40t34
	F35 map[string]wkOM40t35
	F36 map[string]wkOM40t36
	F37 map[string]wkOM40t37
	F38 map[string]wkOM40t38
	F39 map[string]wkOM40t39
}
type wkOM40t10 struct {
	F11 map[string]wkOM40t11
	F12 map[string]wkOM40t12
	F13 map[string]wkOM40t13
	F14 map[string]wkOM40t14
	F15 map[string]wkOM40t15
	F16 map[string]wkOM40t16
	F17 map[string]wkOM40t17
	F18 map[string]wkOM40t18
	F19 map[string]wkOM40t19
	F20 map[string]wkOM40t20
	F21 map[string]wkOM40t21
	F22 map[string]wkOM40t22
	F23 map[string]wkOM40t23
	F24 map[string]wkOM40t24
	F25 map[string]wkOM40t25
	F26 map[string]wkOM40t26
	F27 map[string]wkOM40t27
	F28 map[string]wkOM40t28
	F29 map[string]wkOM40t29
	F30 map[string]wkOM40t30
	F31 map[string]wkOM40t31
	F32 map[string]wkOM40t32
	F33 map[string]wkOM40t33
	F34 map[string]wkOM40t34
	F35 map[string]wkOM40t35
	F36 map[string]wkOM40t36
	F37 map[string]wkOM40t37
	F38 map[string]wkOM40t38
	F39 map[string]wkOM40t39
}
type wkOM40t11 struct {
	F12 map[string]wkOM40t12
	F13 map[string]wkOM40t13
	F14 map[string]wkOM40t14
	F15 map[string]wkOM40t15
	F16 map[string]wkOM40t16
	F17 map[string]wkOM40t17
	F18 map[string]wkOM40t18
	F19 map[string]wkOM40t19
	F20 map[string]wkOM40t20
	F21 map[string]wkOM40t21
	F22 map[string]wkOM40t22
	F23 map[string]wkOM40t23
	F24 map[string]wkOM40t24
	F25 map[string]wkOM40t25
	F26 map[string]wkOM40t26
	F27 map[string]wkOM40t27
	F28 map[string]wkOM40t28
	F29 map[string]wkOM40t29
	F30 map[string]wkOM40t30
	F31 map[string]wkOM40t31
	F32 map[string]wkOM40t32
	F33 map[string]wkOM40t33
	F34 map[string]wkOM40t34
	F35 map[string]wkOM40t35
	F36 map[string]wkOM40t36
	F37 map[string]wkOM40t37
	F38 map[string]wkOM40t38
	F39 map[string]wkOM40t39
}
type wkOM40t12 struct {
	F13 map[string]wkOM40t13
	F14 map[string]wkOM40t14
	F15 map[string]wkOM40t15
	F16 map[string]wkOM40t16
	F17 map[string]wkOM40t17
	F18 map[string]wkOM40t18
	F19 map[string]wkOM40t19
	F20 map[string]wkOM40t20
	F21 map[string]wkOM40t21
	F22 map[string]wkOM40t22
	F23 map[string]wkOM40t23
	F24 map[string]wkOM40t24
	F25 map[string]wkOM40t25
	F26 map[string]wkOM40t26
	F27 map[string]wkOM40t27
	F28 map[string]wkOM40t28
	F29 map[string]wkOM40t29
	F30 map[string]wkOM40t30
	F31 map[string]wkOM40t31
	F32 map[string]wkOM40t32
	F33 map[string]wkOM40t33
	F34 map[string]wkOM40t34
	F35 map[string]wkOM40t35
	F36 map[string]wkOM40t36
	F37 map[string]wkOM40t37
	F38 map[string]wkOM40t38
	F39 map[string]wkOM40t39
}
type wkOM40t13 struct {
	F14 map[string]wkOM40t14
	F15 map[string]wkOM40t15
	F16 map[string]wkOM40t16
	F17 map[string]wkOM40t17
	F18 map[string]wkOM40t18
	F19 map[string]wkOM40t19
	F20 map[string]wkOM40t20
	F21 map[string]wkOM40t21
	F22 map[string]wkOM40t22
	F23 map[string]wkOM40t23
	F24 map[string]wkOM40t24
	F25 map[string]wkOM40t25
	F26 map[string]wkOM40t26
	F27 map[string]wkOM40t27
	F28 map[string]wkOM40t28
	F29 map[string]wkOM40t29
	F30 map[string]wkOM40t30
	F31 map[string]wkOM40t31
	F32 map[string]wkOM40t32
	F33 map[string]wkOM40t33
	F34 map[string]wkOM40t34
	F35 map[string]wkOM40t35
	F36 map[string]wkOM40t36
	F37 map[string]wkOM40t37
	F38 map[string]wkOM40t38
	F39 map[string]wkOM40t39
}
type wkOM40t14 struct {
	F15 map[string]wkOM40t15
	F16 map[string]wkOM40t16
	F17 map[string]wkOM40t17
	F18 map[string]wkOM40t18
	F19 map[string]wkOM40t19
	F20 map[string]wkOM40t20
	F21 map[string]wkOM40t21
	F22 map[string]wkOM40t22
	F23 map[string]wkOM40t23
	F24 map[string]wkOM40t24
	F25 map[string]wkOM40t25
	F26 map[string]wkOM40t26
	F27 map[string]wkOM40t27
	F28 map[string]wkOM40t28
	F29 map[string]wkOM40t29
	F30 map[string]wkOM40t30
	F31 map[string]wkOM40t31
	F32 map[string]wkOM40t32
	F33 map[string]wkOM40t33
	F34 map[string]wkOM40t34
	F35 map[string]wkOM40t35
	F36 map[string]wkOM40t36
	F37 map[string]wkOM40t37
	F38 map[string]wkOM40t38
	F39 map[string]wkOM40t39
}
type wkOM40t15 struct {
	F16 map[string]wkOM40t16
	F17 map[string]wkOM40t17
	F18 map[string]wkOM40t18
	F19 map[string]wkOM40t19
	F20 map[string]wkOM40t20
	F21 map[string]wkOM40t21
	F22 map[string]wkOM40t22
	F23 map[string]wkOM40t23
	F24 map[string]wkOM40t24
	F25 map[string]wkOM40t25
	F26 map[string]wkOM40t26
	F27 map[string]wkOM40t27
	F28 map[string]wkOM40t28
	F29 map[string]wkOM40t29
	F30 map[string]wkOM40t30
	F31 map[string]wkOM40t31
	F32 map[string]wkOM40t32
	F33 map[string]wkOM40t33
	F34 map[string]wkOM40t34
	F35 map[string]wkOM40t35
	F36 map[string]wkOM40t36
	F37 map[string]wkOM40t37
	F38 map[string]wkOM40t38
	F39 map[string]wkOM40t39
}
type wkOM40t16 struct {
	F17 map[string]wkOM40t17
	F18 map[string]wkOM40t18
	F19 map[string]wkOM40t19
	F20 map[string]wkOM40t20
	F21 map[string]wkOM40t21
	F22 map[string]wkOM40t22
	F23 map[string]wkOM40t23
	F24 map[string]wkOM40t24
	F25 map[string]wkOM40t25
	F26 map[string]wkOM40t26
	F27 map[string]wkOM40t27
	F28 map[string]wkOM40t28
	F29 map[string]wkOM40t29
	F30 map[string]wkOM40t30
	F31 map[string]wkOM40t31
	F32 map[string]wkOM40t32
	F33 map[string]wkOM40t33
	F34 map[string]wkOM40t34
	F35 map[string]wkOM40t35
	F36 map[string]wkOM40t36
	F37 map[string]wkOM40t37
	F38 map[string]wkOM40t38
	F39 map[string]wkOM40t39
}
type wkOM40t17 struct {
	F18 map[string]wkOM40t18
	F19 map[string]wkOM40t19
	F20 map[string]wkOM40t20
	F21 map[string]wkOM40t21
	F22 map[string]wkOM40t22
	F23 map[string]wkOM40t23
	F24 map[string]wkOM40t24
	F25 map[string]wkOM40t25
	F26 map[string]wkOM40t26
	F27 map[string]wkOM40t27
	F28 map[string]wkOM40t28
	F29 map[string]wkOM40t29
	F30 map[string]wkOM40t30
	F31 map[string]wkOM40t31
	F32 map[string]wkOM40t32
	F33 map[string]wkOM40t33
	F34 map[string]wkOM40t34
	F35 map[string]wkOM40t35
	F36 map[string]wkOM40t36
	F37 map[string]wkOM40t37
	F38 map[string]wkOM40t38
	F39 map[string]wkOM40t39
}
type wkOM40t18 struct {
	F19 map[string]wkOM40t19
	F20 map[string]wkOM40t20
	F21 map[string]wkOM40t21
	F22 map[string]wkOM40t22
	F23 map[string]wkOM40t23
	F24 map[string]wkOM40t24
	F25 map[string]wkOM40t25
	F26 map[string]wkOM40t26
	F27 map[string]wkOM40t27
	F28 map[string]wkOM40t28
	F29 map[string]wkOM40t29
	F30 map[string]wkOM40t30
	F31 map[string]wkOM40t31
	F32 map[string]wkOM40t32
	F33 map[string]wkOM40t33
	F34 map[string]wkOM40t34
	F35 map[string]wkOM40t35
	F36 map[string]wkOM40t36
	F37 map[string]wkOM40t37
	F38 map[string]wkOM40t38
	F39 map[string]wkOM40t39
}
type wkOM40t19 struct {
	F20 map[string]wkOM40t20
	F21 map[string]wkOM40t21
	F22 map[string]wkOM40t22
	F23 map[string]wkOM40t23
	F24 map[string]wkOM40t24
	F25 map[string]wkOM40t25
	F26 map[string]wkOM40t26
	F27 map[string]wkOM40t27
	F28 map[string]wkOM40t28
	F29 map[string]wkOM40t29
	F30 map[string]wkOM40t30
	F31 map[string]wkOM40t31
	F32 map[string]wkOM40t32
	F33 map[string]wkOM40t33
	F34 map[string]wkOM40t34
	F35 map[string]wkOM40t35
	F36 map[string]wkOM40t36
	F37 map[string]wkOM40t37
	F38 map[string]wkOM40t38
	F39 map[string]wkOM40t39
}
type wkOM40t20 struct {
	F21 map[string]wkOM40t21
	F22 map[string]wkOM40t22
	F23 map[string]wkOM40t23
	F24 map[string]wkOM40t24
	F25 map[string]wkOM40t25
	F26 map[string]wkOM40t26
	F27 map[string]wkOM40t27
	F28 map[string]wkOM40t28
	F29 map[string]wkOM40t29
	F30 map[string]wkOM40t30
	F31 map[string]wkOM40t31
	F32 map[string]wkOM40t32
	F33 map[string]wkOM40t33
	F34 map[string]wkOM40t34
	F35 map[string]wkOM40t35
	F36 map[string]wkOM40t36
	F37 map[string]wkOM40t37
	F38 map[string]wkOM40t38
	F39 map[string]wkOM40t39
}
type wkOM40t21 struct {
	F22 map[string]wkOM40t22
	F23 map[string]wkOM40t23
	F24 map[string]wkOM40t24
	F25 map[string]wkOM40t25
	F26 map[string]wkOM40t26
	F27 map[string]wkOM40t27
	F28 map[string]wkOM40t28
	F29 map[string]wkOM40t29
	F30 map[string]wkOM40t30
	F31 map[string]wkOM40t31
	F32 map[string]wkOM40t32
	F33 map[string]wkOM40t33
	F34 map[string]wkOM40t34
	F35 map[string]wkOM40t35
	F36 map[string]wkOM40t36
	F37 map[string]wkOM40t37
	F38 map[string]wkOM40t38
	F39 map[string]wkOM40t39
}
type wkOM40t22 struct {
	F23 map[string]wkOM40t23
	F24 map[string]wkOM40t24
	F25 map[string]wkOM40t25
	F26 map[string]wkOM40t26
	F27 map[string]wkOM40t27
	F28 map[string]wkOM40t28
	F29 map[string]wkOM40t29
	F30 map[string]wkOM40t30
	F31 map[string]wkOM40t31
	F32 map[string]wkOM40t32
	F33 map[string]wkOM40t33
	F34 map[string]wkOM40t34
	F35 map[string]wkOM40t35
	F36 map[string]wkOM40t36
	F37 map[string]wkOM40t37
	F38 map[string]wkOM40t38
	F39 map[string]wkOM40t39
}
type wkOM40t23 struct {
	F24 map[string]wkOM40t24
	F25 map[string]wkOM40t25
	F26 map[string]wkOM40t26
	F27 map[string]wkOM40t27
	F28 map[string]wkOM40t28
	F29 map[string]wkOM40t29
	F30 map[string]wkOM40t30
	F31 map[string]wkOM40t31
	F32 map[string]wkOM40t32
	F33 map[string]wkOM40t33
	F34 map[string]wkOM40t34
	F35 map[string]wkOM40t35
	F36 map[string]wkOM40t36
	F37 map[string]wkOM40t37
	F38 map[string]wkOM40t38
	F39 map[string]wkOM40t39
}
type wkOM40t24 struct {
	F25 map[string]wkOM40t25
	F26 map[string]wkOM40t26
	F27 map[string]wkOM40t27
	F28 map[string]wkOM40t28
	F29 map[string]wkOM40t29
	F30 map[string]wkOM40t30
	F31 map[string]wkOM40t31
	F32 map[string]wkOM40t32
	F33 map[string]wkOM40t33
	F34 map[string]wkOM40t34
	F35 map[string]wkOM40t35
	F36 map[string]wkOM40t36
	F37 map[string]wkOM40t37
	F38 map[string]wkOM40t38
	F39 map[string]wkOM40t39
}
type wkOM40t25 struct {
	F26 map[string]wkOM40t26
	F27 map[string]wkOM40t27
	F28 map[string]wkOM40t28
	F29 map[string]wkOM40t29
	F30 map[string]wkOM40t30
	F31 map[string]wkOM40t31
	F32 map[string]wkOM40t32
	F33 map[string]wkOM40t33
	F34 map[string]wkOM40t34
	F35 map[string]wkOM40t35
	F36 map[string]wkOM40t36
	F37 map[string]wkOM40t37
	F38 map[string]wkOM40t38
	F39 map[string]wkOM40t39
}
type wkOM40t26 struct {
	F27 map[string]wkOM40t27
	F28 map[string]wkOM40t28
	F29 map[string]wkOM40t29
	F30 map[string]wkOM40t30
	F31 map[string]wkOM40t31
	F32 map[string]wkOM40t32
	F33 map[string]wkOM40t33
	F34 map[string]wkOM40t34
	F35 map[string]wkOM40t35
	F36 map[string]wkOM40t36
	F37 map[string]wkOM40t37
	F38 map[string]wkOM40t38
	F39 map[string]wkOM40t39
}
type wkOM40t27 struct {
	F28 map[string]wkOM40t28
	F29 map[string]wkOM40t29
	F30 map[string]wkOM40t30
	F31 map[string]wkOM40t31
	F32 map[string]wkOM40t32
	F33 map[string]wkOM40t33
	F34 map[string]wkOM40t34
	F35 map[string]wkOM40t35
	F36 map[string]wkOM40t36
	F37 map[string]wkOM40t37
	F38 map[string]wkOM40t38
	F39 map[string]wkOM40t39
}
type wkOM40t28 struct {
	F29 map[string]wkOM40t29
	F30 map[string]wkOM40t30
	F31 map[string]wkOM40t31
	F32 map[string]wkOM40t32
	F33 map[string]wkOM40t33
	F34 map[string]wkOM40t34
	F35 map[string]wkOM40t35
	F36 map[string]wkOM40t36
	F37 map[string]wkOM40t37
	F38 map[string]wkOM40t38
	F39 map[string]wkOM40t39
}
type wkOM40t29 struct {
	F30 map[string]wkOM40t30
	F31 map[string]wkOM40t31
	F32 map[string]wkOM40t32
	F33 map[string]wkOM40t33
	F34 map[string]wkOM40t34
	F35 map[string]wkOM40t35
	F36 map[string]wkOM40t36
	F37 map[string]wkOM40t37
	F38 map[string]wkOM40t38
	F39 map[string]wkOM40t39
}
type wkOM40t30 struct {
	F31 map[string]wkOM40t31
	F32 map[string]wkOM40t32
	F33 map[string]wkOM40t33
	F34 map[string]wkOM40t34
	F35 map[string]wkOM40t35
	F36 map[string]wkOM40t36
	F37 map[string]wkOM40t37
	F38 map[string]wkOM40t38
	F39 map[string]wkOM40t39
}
type wkOM40t31 struct {
	F32 map[string]wkOM40t32
	F33 map[string]wkOM40t33
	F34 map[string]wkOM40t34
	F35 map[string]wkOM40t35
	F36 map[string]wkOM40t36
	F37 map[string]wkOM40t37
	F38 map[string]wkOM40t38
	F39 map[string]wkOM40t39
}
type wkOM40t32 struct {
	F33 map[string]wkOM40t33
	F34 map[string]wkOM40t34
	F35 map[string]wkOM40t35
	F36 map[string]wkOM40t36
	F37 map[string]wkOM40t37
	F38 map[string]wkOM40t38
	F39 map[string]wkOM40t39
}
type wkOM40t33 struct {
	F34 map[string]wkOM40t34
	F35 map[string]wkOM40t35
	F36 map[string]wkOM40t36
	F37 map[string]wkOM40t37
	F38 map[string]wkOM40t38
	F39 map[string]wkOM40t39
}
type wkOM40t34 struct {
	F35 map[string]wkOM40t35
	F36 map[string]wkOM40t36
	F37 map[string]wkOM40t37
	F38 map[string]wkOM40t38
	F39 map[string]wkOM40t39
}
type wkOM40t35 struct {
	F36 map[string]wkOM40t36
	F37 map[string]wkOM40t37
	F38 map[string]wkOM40t38
	F39 map[string]wkOM40t39
}
type wkOM40t36 struct {
	F37 map[string]wkOM40t37
	F38 map[string]wkOM40t38
	F39 map[string]wkOM40t39
}
type wkOM40t37 struct {
	F38 map[string]wkOM40t38
	F39 map[string]wkOM40t39
}
type wkOM40t38 struct{ F39 map[string]wkOM40t39 }
type wkOM40t39 struct{ F0 map[string]wkOM40t0 }
type wkCA2t0 struct {
	F0 [1]*wkCA2t0
	F1 [1]*wkCA2t1
}
type wkCA2t1 struct {
	F0 [1]*wkCA2t0
	F1 [1]*wkCA2t1
}
type wkCA4t0 struct {
	F0 [1]*wkCA4t0
	F1 [1]*wkCA4t1
	F2 [1]*wkCA4t2
	F3 [1]*wkCA4t3
}
type wkCA4t1 struct {
	F0 [1]*wkCA4t0
	F1 [1]*wkCA4t1
	F2 [1]*wkCA4t2
	F3 [1]*wkCA4t3
}
type wkCA4t2 struct {
	F0 [1]*wkCA4t0
	F1 [1]*wkCA4t1
	F2 [1]*wkCA4t2
	F3 [1]*wkCA4t3
}
type wkCA4t3 struct {
	F0 [1]*wkCA4t0
	F1 [1]*wkCA4t1
	F2 [1]*wkCA4t2
	F3 [1]*wkCA4t3
}
type wkCA6t0 struct {
	F0 [1]*wkCA6t0
	F1 [1]*wkCA6t1
	F2 [1]*wkCA6t2
	F3 [1]*wkCA6t3
	F4 [1]*wkCA6t4
	F5 [1]*wkCA6t5
}
type wkCA6t1 struct {
	F0 [1]*wkCA6t0
	F1 [1]*wkCA6t1
	F2 [1]*wkCA6t2
	F3 [1]*wkCA6t3
	F4 [1]*wkCA6t4
	F5 [1]*wkCA6t5
}
type wkCA6t2 struct {
	F0 [1]*wkCA6t0
	F1 [1]*wkCA6t1
	F2 [1]*wkCA6t2
	F3 [1]*wkCA6t3
	F4 [1]*wkCA6t4
	F5 [1]*wkCA6t5
}
type wkCA6t3 struct {
	F0 [1]*wkCA6t0
	F1 [1]*wkCA6t1
	F2 [1]*wkCA6t2
	F3 [1]*wkCA6t3
	F4 [1]*wkCA6t4
	F5 [1]*wkCA6t5
}
type wkCA6t4 struct {
	F0 [1]*wkCA6t0
	F1 [1]*wkCA6t1
	F2 [1]*wkCA6t2
	F3 [1]*wkCA6t3
	F4 [1]*wkCA6t4
	F5 [1]*wkCA6t5
}
type wkCA6t5 struct {
	F0 [1]*wkCA6t0
	F1 [1]*wkCA6t1
	F2 [1]*wkCA6t2
	F3 [1]*wkCA6t3
	F4 [1]*wkCA6t4
	F5 [1]*wkCA6t5
}
type wkCA8t0 struct {
	F0 [1]*wkCA8t0
	F1 [1]*wkCA8t1
	F2 [1]*wkCA8t2
	F3 [1]*wkCA8t3
	F4 [1]*wkCA8t4
	F5 [1]*wkCA8t5
	F6 [1]*wkCA8t6
	F7 [1]*wkCA8t7
}
type wkCA8t1 struct {
	F0 [1]*wkCA8t0
	F1 [1]*wkCA8t1
	F2 [1]*wkCA8t2
	F3 [1]*wkCA8t3
	F4 [1]*wkCA8t4
	F5 [1]*wkCA8t5
	F6 [1]*wkCA8t6
	F7 [1]*wkCA8t7
}
type wkCA8t2 struct {
	F0 [1]*wkCA8t0
	F1 [1]*wkCA8t1
	F2 [1]*wkCA8t2
	F3 [1]*wkCA8t3
	F4 [1]*wkCA8t4
	F5 [1]*wkCA8t5
	F6 [1]*wkCA8t6
	F7 [1]*wkCA8t7
}
type wkCA8t3 struct {
	F0 [1]*wkCA8t0
	F1 [1]*wkCA8t1
	F2 [1]*wkCA8t2
	F3 [1]*wkCA8t3
	F4 [1]*wkCA8t4
	F5 [1]*wkCA8t5
	F6 [1]*wkCA8t6
	F7 [1]*wkCA8t7
}
type wkCA8t4 struct {
	F0 [1]*wkCA8t0
	F1 [1]*wkCA8t1
	F2 [1]*wkCA8t2
	F3 [1]*wkCA8t3
	F4 [1]*wkCA8t4
	F5 [1]*wkCA8t5
	F6 [1]*wkCA8t6
	F7 [1]*wkCA8t7
}
type wkCA8t5 struct {
	F0 [1]*wkCA8t0
	F1 [1]*wkCA8t1
	F2 [1]*wkCA8t2
	F3 [1]*wkCA8t3
	F4 [1]*wkCA8t4
	F5 [1]*wkCA8t5
	F6 [1]*wkCA8t6
	F7 [1]*wkCA8t7
}
type wkCA8t6 struct {
	F0 [1]*wkCA8t0
	F1 [1]*wkCA8t1
	F2 [1]*wkCA8t2
	F3 [1]*wkCA8t3
	F4 [1]*wkCA8t4
	F5 [1]*wkCA8t5
	F6 [1]*wkCA8t6
	F7 [1]*wkCA8t7
}
type wkCA8t7 struct {
	F0 [1]*wkCA8t0
	F1 [1]*wkCA8t1
	F2 [1]*wkCA8t2
	F3 [1]*wkCA8t3
	F4 [1]*wkCA8t4
	F5 [1]*wkCA8t5
	F6 [1]*wkCA8t6
	F7 [1]*wkCA8t7
}
type wkCA9t0 struct {
	F0 [1]*wkCA9t0
	F1 [1]*wkCA9t1
	F2 [1]*wkCA9t2
	F3 [1]*wkCA9t3
	F4 [1]*wkCA9t4
	F5 [1]*wkCA9t5
	F6 [1]*wkCA9t6
	F7 [1]*wkCA9t7
	F8 [1]*wkCA9t8
}
type wkCA9t1 struct {
	F0 [1]*wkCA9t0
	F1 [1]*wkCA9t1
	F2 [1]*wkCA9t2
	F3 [1]*wkCA9t3
	F4 [1]*wkCA9t4
	F5 [1]*wkCA9t5
	F6 [1]*wkCA9t6
	F7 [1]*wkCA9t7
	F8 [1]*wkCA9t8
}
type wkCA9t2 struct {
	F0 [1]*wkCA9t0
	F1 [1]*wkCA9t1
	F2 [1]*wkCA9t2
	F3 [1]*wkCA9t3
	F4 [1]*wkCA9t4
	F5 [1]*wkCA9t5
	F6 [1]*wkCA9t6
	F7 [1]*wkCA9t7
	F8 [1]*wkCA9t8
}
type wkCA9t3 struct {
	F0 [1]*wkCA9t0
	F1 [1]*wkCA9t1
	F2 [1]*wkCA9t2
	F3 [1]*wkCA9t3
	F4 [1]*wkCA9t4
	F5 [1]*wkCA9t5
	F6 [1]*wkCA9t6
	F7 [1]*wkCA9t7
	F8 [1]*wkCA9t8
}
type wkCA9t4 struct {
	F0 [1]*wkCA9t0
	F1 [1]*wkCA9t1
	F2 [1]*wkCA9t2
	F3 [1]*wkCA9t3
	F4 [1]*wkCA9t4
	F5 [1]*wkCA9t5
	F6 [1]*wkCA9t6
	F7 [1]*wkCA9t7
	F8 [1]*wkCA9t8
}
type wkCA9t5 struct {
	F0 [1]*wkCA9t0
	F1 [1]*wkCA9t1
	F2 [1]*wkCA9t2
	F3 [1]*wkCA9t3
	F4 [1]*wkCA9t4
	F5 [1]*wkCA9t5
	F6 [1]*wkCA9t6
	F7 [1]*wkCA9t7
	F8 [1]*wkCA9t8
}
type wkCA9t6 struct {
	F0 [1]*wkCA9t0
	F1 [1]*wkCA9t1
	F2 [1]*wkCA9t2
	F3 [1]*wkCA9t3
	F4 [1]*wkCA9t4
	F5 [1]*wkCA9t5
	F6 [1]*wkCA9t6
	F7 [1]*wkCA9t7
	F8 [1]*wkCA9t8
}
type wkCA9t7 struct {
	F0 [1]*wkCA9t0
	F1 [1]*wkCA9t1
	F2 [1]*wkCA9t2
	F3 [1]*wkCA9t3
	F4 [1]*wkCA9t4
	F5 [1]*wkCA9t5
	F6 [1]*wkCA9t6
	F7 [1]*wkCA9t7
	F8 [1]*wkCA9t8
}
type wkCA9t8 struct {
	F0 [1]*wkCA9t0
	F1 [1]*wkCA9t1
	F2 [1]*wkCA9t2
	F3 [1]*wkCA9t3
	F4 [1]*wkCA9t4
	F5 [1]*wkCA9t5
	F6 [1]*wkCA9t6
	F7 [1]*wkCA9t7
	F8 [1]*wkCA9t8
}
type wkCA10t0 struct {
	F0 [1]*wkCA10t0
	F1 [1]*wkCA10t1
	F2 [1]*wkCA10t2
	F3 [1]*wkCA10t3
	F4 [1]*wkCA10t4
	F5 [1]*wkCA10t5
	F6 [1]*wkCA10t6
	F7 [1]*wkCA10t7
	F8 [1]*wkCA10t8
	F9 [1]*wkCA10t9
}
type wkCA10t1 struct {
	F0 [1]*wkCA10t0
	F1 [1]*wkCA10t1
	F2 [1]*wkCA10t2
	F3 [1]*wkCA10t3
	F4 [1]*wkCA10t4
	F5 [1]*wkCA10t5
	F6 [1]*wkCA10t6
	F7 [1]*wkCA10t7
	F8 [1]*wkCA10t8
	F9 [1]*wkCA10t9
}
type wkCA10t2 struct {
	F0 [1]*wkCA10t0
	F1 [1]*wkCA10t1
	F2 [1]*wkCA10t2
	F3 [1]*wkCA10t3
	F4 [1]*wkCA10t4
	F5 [1]*wkCA10t5
	F6 [1]*wkCA10t6
	F7 [1]*wkCA10t7
	F8 [1]*wkCA10t8
	F9 [1]*wkCA10t9
}
type wkCA10t3 struct {
	F0 [1]*wkCA10t0
	F1 [1]*wkCA10t1
	F2 [1]*wkCA10t2
	F3 [1]*wkCA10t3
	F4 [1]*wkCA10t4
	F5 [1]*wkCA10t5
	F6 [1]*wkCA10t6
	F7 [1]*wkCA10t7
	F8 [1]*wkCA10t8
	F9 [1]*wkCA10t9
}
type wkCA10t4 struct {
	F0 [1]*wkCA10t0
	F1 [1]*wkCA10t1
	F2 [1]*wkCA10t2
	F3 [1]*wkCA10t3
	F4 [1]*wkCA10t4
	F5 [1]*wkCA10t5
	F6 [1]*wkCA10t6
	F7 [1]*wkCA10t7
	F8 [1]*wkCA10t8
	F9 [1]*wkCA10t9
}
type wkCA10t5 struct {
	F0 [1]*wkCA10t0
	F1 [1]*wkCA10t1
	F2 [1]*wkCA10t2
	F3 [1]*wkCA10t3
	F4 [1]*wkCA10t4
	F5 [1]*wkCA10t5
	F6 [1]*wkCA10t6
	F7 [1]*wkCA10t7
	F8 [1]*wkCA10t8
	F9 [1]*wkCA10t9
}
type wkCA10t6 struct {
	F0 [1]*wkCA10t0
	F1 [1]*wkCA10t1
	F2 [1]*wkCA10t2
	F3 [1]*wkCA10t3
	F4 [1]*wkCA10t4
	F5 [1]*wkCA10t5
	F6 [1]*wkCA10t6
	F7 [1]*wkCA10t7
	F8 [1]*wkCA10t8
	F9 [1]*wkCA10t9
}
type wkCA10t7 struct {
	F0 [1]*wkCA10t0
	F1 [1]*wkCA10t1
	F2 [1]*wkCA10t2
	F3 [1]*wkCA10t3
	F4 [1]*wkCA10t4
	F5 [1]*wkCA10t5
	F6 [1]*wkCA10t6
	F7 [1]*wkCA10t7
	F8 [1]*wkCA10t8
	F9 [1]*wkCA10t9
}
type wkCA10t8 struct {
	F0 [1]*wkCA10t0
	F1 [1]*wkCA10t1
	F2 [1]*wkCA10t2
	F3 [1]*wkCA10t3
	F4 [1]*wkCA10t4
	F5 [1]*wkCA10t5
	F6 [1]*wkCA10t6
	F7 [1]*wkCA10t7
	F8 [1]*wkCA10t8
	F9 [1]*wkCA10t9
}
type wkCA10t9 struct {
	F0 [1]*wkCA10t0
	F1 [1]*wkCA10t1
	F2 [1]*wkCA10t2
	F3 [1]*wkCA10t3
	F4 [1]*wkCA10t4
	F5 [1]*wkCA10t5
	F6 [1]*wkCA10t6
	F7 [1]*wkCA10t7
	F8 [1]*wkCA10t8
	F9 [1]*wkCA10t9
}
type wkCA11t0 struct {
	F0  [1]*wkCA11t0
	F1  [1]*wkCA11t1
	F2  [1]*wkCA11t2
	F3  [1]*wkCA11t3
	F4  [1]*wkCA11t4
	F5  [1]*wkCA11t5
	F6  [1]*wkCA11t6
	F7  [1]*wkCA11t7
	F8  [1]*wkCA11t8
	F9  [1]*wkCA11t9
	F10 [1]*wkCA11t10
}
type wkCA11t1 struct {
	F0  [1]*wkCA11t0
	F1  [1]*wkCA11t1
	F2  [1]*wkCA11t2
	F3  [1]*wkCA11t3
	F4  [1]*wkCA11t4
	F5  [1]*wkCA11t5
	F6  [1]*wkCA11t6
	F7  [1]*wkCA11t7
	F8  [1]*wkCA11t8
	F9  [1]*wkCA11t9
	F10 [1]*wkCA11t10
}
type wkCA11t2 struct {
	F0  [1]*wkCA11t0
	F1  [1]*wkCA11t1
	F2  [1]*wkCA11t2
	F3  [1]*wkCA11t3
	F4  [1]*wkCA11t4
	F5  [1]*wkCA11t5
	F6  [1]*wkCA11t6
	F7  [1]*wkCA11t7
	F8  [1]*wkCA11t8
	F9  [1]*wkCA11t9
	F10 [1]*wkCA11t10
}
type wkCA11t3 struct {
	F0  [1]*wkCA11t0
	F1  [1]*wkCA11t1
	F2  [1]*wkCA11t2
	F3  [1]*wkCA11t3
	F4  [1]*wkCA11t4
	F5  [1]*wkCA11t5
	F6  [1]*wkCA11t6
	F7  [1]*wkCA11t7
	F8  [1]*wkCA11t8
	F9  [1]*wkCA11t9
	F10 [1]*wkCA11t10
}
type wkCA11t4 struct {
	F0  [1]*wkCA11t0
	F1  [1]*wkCA11t1
	F2  [1]*wkCA11t2
	F3  [1]*wkCA11t3
	F4  [1]*wkCA11t4
	F5  [1]*wkCA11t5
	F6  [1]*wkCA11t6
	F7  [1]*wkCA11t7
	F8  [1]*wkCA11t8
	F9  [1]*wkCA11t9
	F10 [1]*wkCA11t10
}
type wkCA11t5 struct {
	F0  [1]*wkCA11t0
	F1  [1]*wkCA11t1
	F2  [1]*wkCA11t2
	F3  [1]*wkCA11t3
	F4  [1]*wkCA11t4
	F5  [1]*wkCA11t5
	F6  [1]*wkCA11t6
	F7  [1]*wkCA11t7
	F8  [1]*wkCA11t8
	F9  [1]*wkCA11t9
	F10 [1]*wkCA11t10
}
type wkCA11t6 struct {
	F0  [1]*wkCA11t0
	F1  [1]*wkCA11t1
	F2  [1]*wkCA11t2
	F3  [1]*wkCA11t3
	F4  [1]*wkCA11t4
	F5  [1]*wkCA11t5
	F6  [1]*wkCA11t6
	F7  [1]*wkCA11t7
	F8  [1]*wkCA11t8
	F9  [1]*wkCA11t9
	F10 [1]*wkCA11t10
}
type wkCA11t7 struct {
	F0  [1]*wkCA11t0
	F1  [1]*wkCA11t1
	F2  [1]*wkCA11t2
	F3  [1]*wkCA11t3
	F4  [1]*wkCA11t4
	F5  [1]*wkCA11t5
	F6  [1]*wkCA11t6
	F7  [1]*wkCA11t7
	F8  [1]*wkCA11t8
	F9  [1]*wkCA11t9
	F10 [1]*wkCA11t10
}
type wkCA11t8 struct {
	F0  [1]*wkCA11t0
	F1  [1]*wkCA11t1
	F2  [1]*wkCA11t2
	F3  [1]*wkCA11t3
	F4  [1]*wkCA11t4
	F5  [1]*wkCA11t5
	F6  [1]*wkCA11t6
	F7  [1]*wkCA11t7
	F8  [1]*wkCA11t8
	F9  [1]*wkCA11t9
	F10 [1]*wkCA11t10
}
type wkCA11t9 struct {
	F0  [1]*wkCA11t0
	F1  [1]*wkCA11t1
	F2  [1]*wkCA11t2
	F3  [1]*wkCA11t3
	F4  [1]*wkCA11t4
	F5  [1]*wkCA11t5
	F6  [1]*wkCA11t6
	F7  [1]*wkCA11t7
	F8  [1]*wkCA11t8
	F9  [1]*wkCA11t9
	F10 [1]*wkCA11t10
}
type wkCA11t10 struct {
	F0  [1]*wkCA11t0
	F1  [1]*wkCA11t1
	F2  [1]*wkCA11t2
	F3  [1]*wkCA11t3
	F4  [1]*wkCA11t4
	F5  [1]*wkCA11t5
	F6  [1]*wkCA11t6
	F7  [1]*wkCA11t7
	F8  [1]*wkCA11t8
	F9  [1]*wkCA11t9
	F10 [1]*wkCA11t10
}
type wkCA12t0 struct {
	F0  [1]*wkCA12t0
	F1  [1]*wkCA12t1
	F2  [1]*wkCA12t2
	F3  [1]*wkCA12t3
	F4  [1]*wkCA12t4
	F5  [1]*wkCA12t5
	F6  [1]*wkCA12t6
	F7  [1]*wkCA12t7
	F8  [1]*wkCA12t8
	F9  [1]*wkCA12t9
	F10 [1]*wkCA12t10
	F11 [1]*wkCA12t11
}
type wkCA12t1 struct {
	F0  [1]*wkCA12t0
	F1  [1]*wkCA12t1
	F2  [1]*wkCA12t2
	F3  [1]*wkCA12t3
	F4  [1]*wkCA12t4
	F5  [1]*wkCA12t5
	F6  [1]*wkCA12t6
	F7  [1]*wkCA12t7
	F8  [1]*wkCA12t8
	F9  [1]*wkCA12t9
	F10 [1]*wkCA12t10
	F11 [1]*wkCA12t11
}
type wkCA12t2 struct {
	F0  [1]*wkCA12t0
	F1  [1]*wkCA12t1
	F2  [1]*wkCA12t2
	F3  [1]*wkCA12t3
	F4  [1]*wkCA12t4
	F5  [1]*wkCA12t5
	F6  [1]*wkCA12t6
	F7  [1]*wkCA12t7
	F8  [1]*wkCA12t8
	F9  [1]*wkCA12t9
	F10 [1]*wkCA12t10
	F11 [1]*wkCA12t11
}
type wkCA12t3 struct {
	F0  [1]*wkCA12t0
	F1  [1]*wkCA12t1
	F2  [1]*wkCA12t2
	F3  [1]*wkCA12t3
	F4  [1]*wkCA12t4
	F5  [1]*wkCA12t5
	F6  [1]*wkCA12t6
	F7  [1]*wkCA12t7
	F8  [1]*wkCA12t8
	F9  [1]*wkCA12t9
	F10 [1]*wkCA12t10
	F11 [1]*wkCA12t11
}
type wkCA12t4 struct {
	F0  [1]*wkCA12t0
	F1  [1]*wkCA12t1
	F2  [1]*wkCA12t2
	F3  [1]*wkCA12t3
	F4  [1]*wkCA12t4
	F5  [1]*wkCA12t5
	F6  [1]*wkCA12t6
	F7  [1]*wkCA12t7
	F8  [1]*wkCA12t8
	F9  [1]*wkCA12t9
	F10 [1]*wkCA12t10
	F11 [1]*wkCA12t11
}
type wkCA12t5 struct {
	F0  [1]*wkCA12t0
	F1  [1]*wkCA12t1
	F2  [1]*wkCA12t2
	F3  [1]*wkCA12t3
	F4  [1]*wkCA12t4
	F5  [1]*wkCA12t5
	F6  [1]*wkCA12t6
	F7  [1]*wkCA12t7
	F8  [1]*wkCA12t8
	F9  [1]*wkCA12t9
	F10 [1]*wkCA12t10
	F11 [1]*wkCA12t11
}
type wkCA12t6 struct {
	F0  [1]*wkCA12t0
	F1  [1]*wkCA12t1
	F2  [1]*wkCA12t2
	F3  [1]*wkCA12t3
	F4  [1]*wkCA12t4
	F5  [1]*wkCA12t5
	F6  [1]*wkCA12t6
	F7  [1]*wkCA12t7
	F8  [1]*wkCA12t8
	F9  [1]*wkCA12t9
	F10 [1]*wkCA12t10
	F11 [1]*wkCA12t11
}
type wkCA12t7 struct {
	F0  [1]*wkCA12t0
	F1  [1]*wkCA12t1
	F2  [1]*wkCA12t2
	F3  [1]*wkCA12t3
	F4  [1]*wkCA12t4
	F5  [1]*wkCA12t5
	F6  [1]*wkCA12t6
	F7  [1]*wkCA12t7
	F8  [1]*wkCA12t8
	F9  [1]*wkCA12t9
	F10 [1]*wkCA12t10
	F11 [1]*wkCA12t11
}
type wkCA12t8 struct {
	F0  [1]*wkCA12t0
	F1  [1]*wkCA12t1
	F2  [1]*wkCA12t2
	F3  [1]*wkCA12t3
	F4  [1]*wkCA12t4
	F5  [1]*wkCA12t5
	F6  [1]*wkCA12t6
	F7  [1]*wkCA12t7
	F8  [1]*wkCA12t8
	F9  [1]*wkCA12t9
	F10 [1]*wkCA12t10
	F11 [1]*wkCA12t11
}
type wkCA12t9 struct {
	F0  [1]*wkCA12t0
	F1  [1]*wkCA12t1
	F2  [1]*wkCA12t2
	F3  [1]*wkCA12t3
	F4  [1]*wkCA12t4
	F5  [1]*wkCA12t5
	F6  [1]*wkCA12t6
	F7  [1]*wkCA12t7
	F8  [1]*wkCA12t8
	F9  [1]*wkCA12t9
	F10 [1]*wkCA12t10
	F11 [1]*wkCA12t11
}
type wkCA12t10 struct {
	F0  [1]*wkCA12t0
	F1  [1]*wkCA12t1
	F2  [1]*wkCA12t2
	F3  [1]*wkCA12t3
	F4  [1]*wkCA12t4
	F5  [1]*wkCA12t5
	F6  [1]*wkCA12t6
	F7  [1]*wkCA12t7
	F8  [1]*wkCA12t8
	F9  [1]*wkCA12t9
	F10 [1]*wkCA12t10
	F11 [1]*wkCA12t11
}
type wkCA12t11 struct {
	F0  [1]*wkCA12t0
	F1  [1]*wkCA12t1
	F2  [1]*wkCA12t2
	F3  [1]*wkCA12t3
	F4  [1]*wkCA12t4
	F5  [1]*wkCA12t5
	F6  [1]*wkCA12t6
	F7  [1]*wkCA12t7
	F8  [1]*wkCA12t8
	F9  [1]*wkCA12t9
	F10 [1]*wkCA12t10
	F11 [1]*wkCA12t11
}
type wkCA16t0 struct {
	F0  [1]*wkCA16t0
	F1  [1]*wkCA16t1
	F2  [1]*wkCA16t2
	F3  [1]*wkCA16t3
	F4  [1]*wkCA16t4
	F5  [1]*wkCA16t5
	F6  [1]*wkCA16t6
	F7  [1]*wkCA16t7
	F8  [1]*wkCA16t8
	F9  [1]*wkCA16t9
	F10 [1]*wkCA16t10
	F11 [1]*wkCA16t11
	F12 [1]*wkCA16t12
	F13 [1]*wkCA16t13
	F14 [1]*wkCA16t14
	F15 [1]*wkCA16t15
}
type wkCA16t1 struct {
	F0  [1]*wkCA16t0
	F1  [1]*wkCA16t1
	F2  [1]*wkCA16t2
	F3  [1]*wkCA16t3
	F4  [1]*wkCA16t4
	F5  [1]*wkCA16t5
	F6  [1]*wkCA16t6
	F7  [1]*wkCA16t7
	F8  [1]*wkCA16t8
	F9  [1]*wkCA16t9
	F10 [1]*wkCA16t10
	F11 [1]*wkCA16t11
	F12 [1]*wkCA16t12
	F13 [1]*wkCA16t13
	F14 [1]*wkCA16t14
	F15 [1]*wkCA16t15
}
type wkCA16t2 struct {
	F0  [1]*wkCA16t0
	F1  [1]*wkCA16t1
	F2  [1]*wkCA16t2
	F3  [1]*wkCA16t3
	F4  [1]*wkCA16t4
	F5  [1]*wkCA16t5
	F6  [1]*wkCA16t6
	F7  [1]*wkCA16t7
	F8  [1]*wkCA16t8
	F9  [1]*wkCA16t9
	F10 [1]*wkCA16t10
	F11 [1]*wkCA16t11
	F12 [1]*wkCA16t12
	F13 [1]*wkCA16t13
	F14 [1]*wkCA16t14
	F15 [1]*wkCA16t15
}
type wkCA16t3 struct {
	F0  [1]*wkCA16t0
	F1  [1]*wkCA16t1
	F2  [1]*wkCA16t2
	F3  [1]*wkCA16t3
	F4  [1]*wkCA16t4
	F5  [1]*wkCA16t5
	F6  [1]*wkCA16t6
	F7  [1]*wkCA16t7
	F8  [1]*wkCA16t8
	F9  [1]*wkCA16t9
	F10 [1]*wkCA16t10
	F11 [1]*wkCA16t11
	F12 [1]*wkCA16t12
	F13 [1]*wkCA16t13
	F14 [1]*wkCA16t14
	F15 [1]*wkCA16t15
}
type wkCA16t4 struct {
	F0  [1]*wkCA16t0
	F1  [1]*wkCA16t1
	F2  [1]*wkCA16t2
	F3  [1]*wkCA16t3
	F4  [1]*wkCA16t4
	F5  [1]*wkCA16t5
	F6  [1]*wkCA16t6
	F7  [1]*wkCA16t7
	F8  [1]*wkCA16t8
	F9  [1]*wkCA16t9
	F10 [1]*wkCA16t10
	F11 [1]*wkCA16t11
	F12 [1]*wkCA16t12
	F13 [1]*wkCA16t13
	F14 [1]*wkCA16t14
	F15 [1]*wkCA16t15
}
type wkCA16t5 struct {
	F0  [1]*wkCA16t0
	F1  [1]*wkCA16t1
	F2  [1]*wkCA16t2
	F3  [1]*wkCA16t3
	F4  [1]*wkCA16t4
	F5  [1]*wkCA16t5
	F6  [1]*wkCA16t6
	F7  [1]*wkCA16t7
	F8  [1]*wkCA16t8
	F9  [1]*wkCA16t9
	F10 [1]*wkCA16t10
	F11 [1]*wkCA16t11
	F12 [1]*wkCA16t12
	F13 [1]*wkCA16t13
	F14 [1]*wkCA16t14
	F15 [1]*wkCA16t15
}
type wkCA16t6 struct {
	F0  [1]*wkCA16t0
	F1  [1]*wkCA16t1
	F2  [1]*wkCA16t2
	F3  [1]*wkCA16t3
	F4  [1]*wkCA16t4
	F5  [1]*wkCA16t5
	F6  [1]*wkCA16t6
	F7  [1]*wkCA16t7
	F8  [1]*wkCA16t8
	F9  [1]*wkCA16t9
	F10 [1]*wkCA16t10
	F11 [1]*wkCA16t11
	F12 [1]*wkCA16t12
	F13 [1]*wkCA16t13
	F14 [1]*wkCA16t14
	F15 [1]*wkCA16t15
}
type wkCA16t7 struct {
	F0  [1]*wkCA16t0
	F1  [1]*wkCA16t1
	F2  [1]*wkCA16t2
	F3  [1]*wkCA16t3
	F4  [1]*wkCA16t4
	F5  [1]*wkCA16t5
	F6  [1]*wkCA16t6
	F7  [1]*wkCA16t7
	F8  [1]*wkCA16t8
	F9  [1]*wkCA16t9
	F10 [1]*wkCA16t10
	F11 [1]*wkCA16t11
	F12 [1]*wkCA16t12
	F13 [1]*wkCA16t13
	F14 [1]*wkCA16t14
	F15 [1]*wkCA16t15
}
type wkCA16t8 struct {
	F0  [1]*wkCA16t0
	F1  [1]*wkCA16t1
	F2  [1]*wkCA16t2
	F3  [1]*wkCA16t3
	F4  [1]*wkCA16t4
	F5  [1]*wkCA16t5
	F6  [1]*wkCA16t6
	F7  [1]*wkCA16t7
	F8  [1]*wkCA16t8
	F9  [1]*wkCA16t9
	F10 [1]*wkCA16t10
	F11 [1]*wkCA16t11
	F12 [1]*wkCA16t12
	F13 [1]*wkCA16t13
	F14 [1]*wkCA16t14
	F15 [1]*wkCA16t15
}
type wkCA16t9 struct {
	F0  [1]*wkCA16t0
	F1  [1]*wkCA16t1
	F2  [1]*wkCA16t2
	F3  [1]*wkCA16t3
	F4  [1]*wkCA16t4
	F5  [1]*wkCA16t5
	F6  [1]*wkCA16t6
	F7  [1]*wkCA16t7
	F8  [1]*wkCA16t8
	F9  [1]*wkCA16t9
	F10 [1]*wkCA16t10
	F11 [1]*wkCA16t11
	F12 [1]*wkCA16t12
	F13 [1]*wkCA16t13
	F14 [1]*wkCA16t14
	F15 [1]*wkCA16t15
}
type wkCA16t10 struct {
	F0  [1]*wkCA16t0
	F1  [1]*wkCA16t1
	F2  [1]*wkCA16t2
	F3  [1]*wkCA16t3
	F4  [1]*wkCA16t4
	F5  [1]*wkCA16t5
	F6  [1]*wkCA16t6
	F7  [1]*wkCA16t7
	F8  [1]*wkCA16t8
	F9  [1]*wkCA16t9
	F10 [1]*wkCA16t10
	F11 [1]*wkCA16t11
	F12 [1]*wkCA16t12
	F13 [1]*wkCA16t13
	F14 [1]*wkCA16t14
	F15 [1]*wkCA16t15
}
type wkCA16t11 struct {
	F0  [1]*wkCA16t0
	F1  [1]*wkCA16t1
	F2  [1]*wkCA16t2
	F3  [1]*wkCA16t3
	F4  [1]*wkCA16t4
	F5  [1]*wkCA16t5
	F6  [1]*wkCA16t6
	F7  [1]*wkCA16t7
	F8  [1]*wkCA16t8
	F9  [1]*wkCA16t9
	F10 [1]*wkCA16t10
	F11 [1]*wkCA16t11
	F12 [1]*wkCA16t12
	F13 [1]*wkCA16t13
	F14 [1]*wkCA16t14
	F15 [1]*wkCA16t15
}
type wkCA16t12 struct {
	F0  [1]*wkCA16t0
	F1  [1]*wkCA16t1
	F2  [1]*wkCA16t2
	F3  [1]*wkCA16t3
	F4  [1]*wkCA16t4
	F5  [1]*wkCA16t5
	F6  [1]*wkCA16t6
	F7  [1]*wkCA16t7
	F8  [1]*wkCA16t8
	F9  [1]*wkCA16t9
	F10 [1]*wkCA16t10
	F11 [1]*wkCA16t11
	F12 [1]*wkCA16t12
	F13 [1]*wkCA16t13
	F14 [1]*wkCA16t14
	F15 [1]*wkCA16t15
}
type wkCA16t13 struct {
	F0  [1]*wkCA16t0
	F1  [1]*wkCA16t1
	F2  [1]*wkCA16t2
	F3  [1]*wkCA16t3
	F4  [1]*wkCA16t4
	F5  [1]*wkCA16t5
	F6  [1]*wkCA16t6
	F7  [1]*wkCA16t7
	F8  [1]*wkCA16t8
	F9  [1]*wkCA16t9
	F10 [1]*wkCA16t10
	F11 [1]*wkCA16t11
	F12 [1]*wkCA16t12
	F13 [1]*wkCA16t13
	F14 [1]*wkCA16t14
	F15 [1]*wkCA16t15
}
type wkCA16t14 struct {
	F0  [1]*wkCA16t0
	F1  [1]*wkCA16t1
	F2  [1]*wkCA16t2
	F3  [1]*wkCA16t3
	F4  [1]*wkCA16t4
	F5  [1]*wkCA16t5
	F6  [1]*wkCA16t6
	F7  [1]*wkCA16t7
	F8  [1]*wkCA16t8
	F9  [1]*wkCA16t9
	F10 [1]*wkCA16t10
	F11 [1]*wkCA16t11
	F12 [1]*wkCA16t12
	F13 [1]*wkCA16t13
	F14 [1]*wkCA16t14
	F15 [1]*wkCA16t15
}
type wkCA16t15 struct {
	F0  [1]*wkCA16t0
	F1  [1]*wkCA16t1
	F2  [1]*wkCA16t2
	F3  [1]*wkCA16t3
	F4  [1]*wkCA16t4
	F5  [1]*wkCA16t5
	F6  [1]*wkCA16t6
	F7  [1]*wkCA16t7
	F8  [1]*wkCA16t8
	F9  [1]*wkCA16t9
	F10 [1]*wkCA16t10
	F11 [1]*wkCA16t11
	F12 [1]*wkCA16t12
	F13 [1]*wkCA16t13
	F14 [1]*wkCA16t14
	F15 [1]*wkCA16t15
}
type wkCA24t0 struct {
	F0  [1]*wkCA24t0
	F1  [1]*wkCA24t1
	F2  [1]*wkCA24t2
	F3  [1]*wkCA24t3
	F4  [1]*wkCA24t4
	F5  [1]*wkCA24t5
	F6  [1]*wkCA24t6
	F7  [1]*wkCA24t7
	F8  [1]*wkCA24t8
	F9  [1]*wkCA24t9
	F10 [1]*wkCA24t10
	F11 [1]*wkCA24t11
	F12 [1]*wkCA24t12
	F13 [1]*wkCA24t13
	F14 [1]*wkCA24t14
	F15 [1]*wkCA24t15
	F16 [1]*wkCA24t16
	F17 [1]*wkCA24t17
	F18 [1]*wkCA24t18
	F19 [1]*wkCA24t19
	F20 [1]*wkCA24t20
	F21 [1]*wkCA24t21
	F22 [1]*wkCA24t22
	F23 [1]*wkCA24t23
}
type wkCA24t1 struct {
	F0  [1]*wkCA24t0
	F1  [1]*wkCA24t1
	F2  [1]*wkCA24t2
	F3  [1]*wkCA24t3
	F4  [1]*wkCA24t4
	F5  [1]*wkCA24t5
	F6  [1]*wkCA24t6
	F7  [1]*wkCA24t7
	F8  [1]*wkCA24t8
	F9  [1]*wkCA24t9
	F10 [1]*wkCA24t10
	F11 [1]*wkCA24t11
	F12 [1]*wkCA24t12
	F13 [1]*wkCA24t13
	F14 [1]*wkCA24t14
	F15 [1]*wkCA24t15
	F16 [1]*wkCA24t16
	F17 [1]*wkCA24t17
	F18 [1]*wkCA24t18
	F19 [1]*wkCA24t19
	F20 [1]*wkCA24t20
	F21 [1]*wkCA24t21
	F22 [1]*wkCA24t22
	F23 [1]*wkCA24t23
}
type wkCA24t2 struct {
	F0  [1]*wkCA24t0
	F1  [1]*wkCA24t1
	F2  [1]*wkCA24t2
	F3  [1]*wkCA24t3
	F4  [1]*wkCA24t4
	F5  [1]*wkCA24t5
	F6  [1]*wkCA24t6
	F7  [1]*wkCA24t7
	F8  [1]*wkCA24t8
	F9  [1]*wkCA24t9
	F10 [1]*wkCA24t10
	F11 [1]*wkCA24t11
	F12 [1]*wkCA24t12
	F13 [1]*wkCA24t13
	F14 [1]*wkCA24t14
	F15 [1]*wkCA24t15
	F16 [1]*wkCA24t16
	F17 [1]*wkCA24t17
	F18 [1]*wkCA24t18
	F19 [1]*wkCA24t19
	F20 [1]*wkCA24t20
	F21 [1]*wkCA24t21
	F22 [1]*wkCA24t22
	F23 [1]*wkCA24t23
}
type wkCA24t3 struct {
	F0  [1]*wkCA24t0
	F1  [1]*wkCA24t1
	F2  [1]*wkCA24t2
	F3  [1]*wkCA24t3
	F4  [1]*wkCA24t4
	F5  [1]*wkCA24t5
	F6  [1]*wkCA24t6
	F7  [1]*wkCA24t7
	F8  [1]*wkCA24t8
	F9  [1]*wkCA24t9
	F10 [1]*wkCA24t10
	F11 [1]*wkCA24t11
	F12 [1]*wkCA24t12
	F13 [1]*wkCA24t13
	F14 [1]*wkCA24t14
	F15 [1]*wkCA24t15
	F16 [1]*wkCA24t16
	F17 [1]*wkCA24t17
	F18 [1]*wkCA24t18
	F19 [1]*wkCA24t19
	F20 [1]*wkCA24t20
	F21 [1]*wkCA24t21
	F22 [1]*wkCA24t22
	F23 [1]*wkCA24t23
}
type wkCA24t4 struct {
	F0  [1]*wkCA24t0
	F1  [1]*wkCA24t1
	F2  [1]*wkCA24t2
	F3  [1]*wkCA24t3
	F4  [1]*wkCA24t4
	F5  [1]*wkCA24t5
	F6  [1]*wkCA24t6
	F7  [1]*wkCA24t7
	F8  [1]*wkCA24t8
	F9  [1]*wkCA24t9
	F10 [1]*wkCA24t10
	F11 [1]*wkCA24t11
	F12 [1]*wkCA24t12
	F13 [1]*wkCA24t13
	F14 [1]*wkCA24t14
	F15 [1]*wkCA24t15
	F16 [1]*wkCA24t16
	F17 [1]*wkCA24t17
	F18 [1]*wkCA24t18
	F19 [1]*wkCA24t19
	F20 [1]*wkCA24t20
	F21 [1]*wkCA24t21
	F22 [1]*wkCA24t22
	F23 [1]*wkCA24t23
}
type wkCA24t5 struct {
	F0  [1]*wkCA24t0
	F1  [1]*wkCA24t1
	F2  [1]*wkCA24t2
	F3  [1]*wkCA24t3
	F4  [1]*wkCA24t4
	F5  [1]*wkCA24t5
	F6  [1]*wkCA24t6
	F7  [1]*wkCA24t7
	F8  [1]*wkCA24t8
	F9  [1]*wkCA24t9
	F10 [1]*wkCA24t10
	F11 [1]*wkCA24t11
	F12 [1]*wkCA24t12
	F13 [1]*wkCA24t13
	F14 [1]*wkCA24t14
	F15 [1]*wkCA24t15
	F16 [1]*wkCA24t16
	F17 [1]*wkCA24t17
	F18 [1]*wkCA24t18
	F19 [1]*wkCA24t19
	F20 [1]*wkCA24t20
	F21 [1]*wkCA24t21
	F22 [1]*wkCA24t22
	F23 [1]*wkCA24t23
}
type wkCA24t6 struct {
	F0  [1]*wkCA24t0
	F1  [1]*wkCA24t1
	F2  [1]*wkCA24t2
	F3  [1]*wkCA24t3
	F4  [1]*wkCA24t4
	F5  [1]*wkCA24t5
	F6  [1]*wkCA24t6
	F7  [1]*wkCA24t7
	F8  [1]*wkCA24t8
	F9  [1]*wkCA24t9
	F10 [1]*wkCA24t10
	F11 [1]*wkCA24t11
	F12 [1]*wkCA24t12
	F13 [1]*wkCA24t13
	F14 [1]*wkCA24t14
	F15 [1]*wkCA24t15
	F16 [1]*wkCA24t16
	F17 [1]*wkCA24t17
	F18 [1]*wkCA24t18
	F19 [1]*wkCA24t19
	F20 [1]*wkCA24t20
	F21 [1]*wkCA24t21
	F22 [1]*wkCA24t22
	F23 [1]*wkCA24t23
}
type wkCA24t7 struct {
	F0  [1]*wkCA24t0
	F1  [1]*wkCA24t1
	F2  [1]*wkCA24t2
	F3  [1]*wkCA24t3
	F4  [1]*wkCA24t4
	F5  [1]*wkCA24t5
	F6  [1]*wkCA24t6
	F7  [1]*wkCA24t7
	F8  [1]*wkCA24t8
	F9  [1]*wkCA24t9
	F10 [1]*wkCA24t10
	F11 [1]*wkCA24t11
	F12 [1]*wkCA24t12
	F13 [1]*wkCA24t13
	F14 [1]*wkCA24t14
	F15 [1]*wkCA24t15
	F16 [1]*wkCA24t16
	F17 [1]*wkCA24t17
	F18 [1]*wkCA24t18
	F19 [1]*wkCA24t19
	F20 [1]*wkCA24t20
	F21 [1]*wkCA24t21
	F22 [1]*wkCA24t22
	F23 [1]*wkCA24t23
}
type wkCA24t8 struct {
	F0  [1]*wkCA24t0
	F1  [1]*wkCA24t1
	F2  [1]*wkCA24t2
	F3  [1]*wkCA24t3
	F4  [1]*wkCA24t4
	F5  [1]*wkCA24t5
	F6  [1]*wkCA24t6
	F7  [1]*wkCA24t7
	F8  [1]*wkCA24t8
	F9  [1]*wkCA24t9
	F10 [1]*wkCA24t10
	F11 [1]*wkCA24t11
	F12 [1]*wkCA24t12
	F13 [1]*wkCA24t13
	F14 [1]*wkCA24t14
	F15 [1]*wkCA24t15
	F16 [1]*wkCA24t16
	F17 [1]*wkCA24t17
	F18 [1]*wkCA24t18
	F19 [1]*wkCA24t19
	F20 [1]*wkCA24t20
	F21 [1]*wkCA24t21
	F22 [1]*wkCA24t22
	F23 [1]*wkCA24t23
}
type wkCA24t9 struct {
	F0  [1]*wkCA24t0
	F1  [1]*wkCA24t1
	F2  [1]*wkCA24t2
	F3  [1]*wkCA24t3
	F4  [1]*wkCA24t4
	F5  [1]*wkCA24t5
	F6  [1]*wkCA24t6
	F7  [1]*wkCA24t7
	F8  [1]*wkCA24t8
	F9  [1]*wkCA24t9
	F10 [1]*wkCA24t10
	F11 [1]*wkCA24t11
	F12 [1]*wkCA24t12
	F13 [1]*wkCA24t13
	F14 [1]*wkCA24t14
	F15 [1]*wkCA24t15
	F16 [1]*wkCA24t16
	F17 [1]*wkCA24t17
	F18 [1]*wkCA24t18
	F19 [1]*wkCA24t19
	F20 [1]*wkCA24t20
	F21 [1]*wkCA24t21
	F22 [1]*wkCA24t22
	F23 [1]*wkCA24t23
}
type wkCA24t10 struct {
	F0  [1]*wkCA24t0
	F1  [1]*wkCA24t1
	F2  [1]*wkCA24t2
	F3  [1]*wkCA24t3
	F4  [1]*wkCA24t4
	F5  [1]*wkCA24t5
	F6  [1]*wkCA24t6
	F7  [1]*wkCA24t7
	F8  [1]*wkCA24t8
	F9  [1]*wkCA24t9
	F10 [1]*wkCA24t10
	F11 [1]*wkCA24t11
	F12 [1]*wkCA24t12
	F13 [1]*wkCA24t13
	F14 [1]*wkCA24t14
	F15 [1]*wkCA24t15
	F16 [1]*wkCA24t16
	F17 [1]*wkCA24t17
	F18 [1]*wkCA24t18
	F19 [1]*wkCA24t19
	F20 [1]*wkCA24t20
	F21 [1]*wkCA24t21
	F22 [1]*wkCA24t22
	F23 [1]*wkCA24t23
}
type wkCA24t11 struct {
	F0  [1]*wkCA24t0
	F1  [1]*wkCA24t1
	F2  [1]*wkCA24t2
	F3  [1]*wkCA24t3
	F4  [1]*wkCA24t4
	F5  [1]*wkCA24t5
	F6  [1]*wkCA24t6
	F7  [1]*wkCA24t7
	F8  [1]*wkCA24t8
	F9  [1]*wkCA24t9
	F10 [1]*wkCA24t10
	F11 [1]*wkCA24t11
	F12 [1]*wkCA24t12
	F13 [1]*wkCA24t13
	F14 [1]*wkCA24t14
	F15 [1]*wkCA24t15
	F16 [1]*wkCA24t16
	F17 [1]*wkCA24t17
	F18 [1]*wkCA24t18
	F19 [1]*wkCA24t19
	F20 [1]*wkCA24t20
	F21 [1]*wkCA24t21
	F22 [1]*wkCA24t22
	F23 [1]*wkCA24t23
}
type wkCA24t12 struct {
	F0  [1]*wkCA24t0
	F1  [1]*wkCA24t1
	F2  [1]*wkCA24t2
	F3  [1]*wkCA24t3
	F4  [1]*wkCA24t4
	F5  [1]*wkCA24t5
	F6  [1]*wkCA24t6
	F7  [1]*wkCA24t7
	F8  [1]*wkCA24t8
	F9  [1]*wkCA24t9
	F10 [1]*wkCA24t10
	F11 [1]*wkCA24t11
	F12 [1]*wkCA24t12
	F13 [1]*wkCA24t13
	F14 [1]*wkCA24t14
	F15 [1]*wkCA24t15
	F16 [1]*wkCA24t16
	F17 [1]*wkCA24t17
	F18 [1]*wkCA24t18
	F19 [1]*wkCA24t19
	F20 [1]*wkCA24t20
	F21 [1]*wkCA24t21
	F22 [1]*wkCA24t22
	F23 [1]*wkCA24t23
}
type wkCA24t13 struct {
	F0  [1]*wkCA24t0
	F1  [1]*wkCA24t1
	F2  [1]*wkCA24t2
	F3  [1]*wkCA24t3
	F4  [1]*wkCA24t4
	F5  [1]*wkCA24t5
	F6  [1]*wkCA24t6
	F7  [1]*wkCA24t7
	F8  [1]*wkCA24t8
	F9  [1]*wkCA24t9
	F10 [1]*wkCA24t10
	F11 [1]*wkCA24t11
	F12 [1]*wkCA24t12
	F13 [1]*wkCA24t13
	F14 [1]*wkCA24t14
	F15 [1]*wkCA24t15
	F16 [1]*wkCA24t16
	F17 [1]*wkCA24t17
	F18 [1]*wkCA24t18
	F19 [1]*wkCA24t19
	F20 [1]*wkCA24t20
	F21 [1]*wkCA24t21
	F22 [1]*wkCA24t22
	F23 [1]*wkCA24t23
}
type wkCA24t14 struct {
	F0  [1]*wkCA24t0
	F1  [1]*wkCA24t1
	F2  [1]*wkCA24t2
	F3  [1]*wkCA24t3
	F4  [1]*wkCA24t4
	F5  [1]*wkCA24t5
	F6  [1]*wkCA24t6
	F7  [1]*wkCA24t7
	F8  [1]*wkCA24t8
	F9  [1]*wkCA24t9
	F10 [1]*wkCA24t10
	F11 [1]*wkCA24t11
	F12 [1]*wkCA24t12
	F13 [1]*wkCA24t13
	F14 [1]*wkCA24t14
	F15 [1]*wkCA24t15
	F16 [1]*wkCA24t16
	F17 [1]*wkCA24t17
	F18 [1]*wkCA24t18
	F19 [1]*wkCA24t19
	F20 [1]*wkCA24t20
	F21 [1]*wkCA24t21
	F22 [1]*wkCA24t22
	F23 [1]*wkCA24t23
}
type wkCA24t15 struct {
	F0  [1]*wkCA24t0
	F1  [1]*wkCA24t1
	F2  [1]*wkCA24t2
	F3  [1]*wkCA24t3
	F4  [1]*wkCA24t4
	F5  [1]*wkCA24t5
	F6  [1]*wkCA24t6
	F7  [1]*wkCA24t7
	F8  [1]*wkCA24t8
	F9  [1]*wkCA24t9
	F10 [1]*wkCA24t10
	F11 [1]*wkCA24t11
	F12 [1]*wkCA24t12
	F13 [1]*wkCA24t13
	F14 [1]*wkCA24t14
	F15 [1]*wkCA24t15
	F16 [1]*wkCA24t16
	F17 [1]*wkCA24t17
	F18 [1]*wkCA24t18
	F19 [1]*wkCA24t19
	F20 [1]*wkCA24t20
	F21 [1]*wkCA24t21
	F22 [1]*wkCA24t22
	F23 [1]*wkCA24t23
}
type wkCA24t16 struct {
	F0  [1]*wkCA24t0
	F1  [1]*wkCA24t1
	F2  [1]*wkCA24t2
	F3  [1]*wkCA24t3
	F4  [1]*wkCA24t4
	F5  [1]*wkCA24t5
	F6  [1]*wkCA24t6
	F7  [1]*wkCA24t7
	F8  [1]*wkCA24t8
	F9  [1]*wkCA24t9
	F10 [1]*wkCA24t10
	F11 [1]*wkCA24t11
	F12 [1]*wkCA24t12
	F13 [1]*wkCA24t13
	F14 [1]*wkCA24t14
	F15 [1]*wkCA24t15
	F16 [1]*wkCA24t16
	F17 [1]*wkCA24t17
	F18 [1]*wkCA24t18
	F19 [1]*wkCA24t19
	F20 [1]*wkCA24t20
	F21 [1]*wkCA24t21
	F22 [1]*wkCA24t22
	F23 [1]*wkCA24t23
}
type wkCA24t17 struct {
	F0  [1]*wkCA24t0
	F1  [1]*wkCA24t1
	F2  [1]*wkCA24t2
	F3  [1]*wkCA24t3
	F4  [1]*wkCA24t4
	F5  [1]*wkCA24t5
	F6  [1]*wkCA24t6
	F7  [1]*wkCA24t7
	F8  [1]*wkCA24t8
	F9  [1]*wkCA24t9
	F10 [1]*wkCA24t10
	F11 [1]*wkCA24t11
	F12 [1]*wkCA24t12
	F13 [1]*wkCA24t13
	F14 [1]*wkCA24t14
	F15 [1]*wkCA24t15
	F16 [1]*wkCA24t16
	F17 [1]*wkCA24t17
	F18 [1]*wkCA24t18
	F19 [1]*wkCA24t19
	F20 [1]*wkCA24t20
	F21 [1]*wkCA24t21
	F22 [1]*wkCA24t22
	F23 [1]*wkCA24t23
}
type wkCA24t18 struct {
	F0  [1]*wkCA24t0
	F1  [1]*wkCA24t1
	F2  [1]*wkCA24t2
	F3  [1]*wkCA24t3
	F4  [1]*wkCA24t4
	F5  [1]*wkCA24t5
	F6  [1]*wkCA24t6
	F7  [1]*wkCA24t7
	F8  [1]*wkCA24t8
	F9  [1]*wkCA24t9
	F10 [1]*wkCA24t10
	F11 [1]*wkCA24t11
	F12 [1]*wkCA24t12
	F13 [1]*wkCA24t13
	F14 [1]*wkCA24t14
	F15 [1]*wkCA24t15
	F16 [1]*wkCA24t16
	F17 [1]*wkCA24t17
	F18 [1]*wkCA24t18
	F19 [1]*wkCA24t19
	F20 [1]*wkCA24t20
	F21 [1]*wkCA24t21
	F22 [1]*wkCA24t22
	F23 [1]*wkCA24t23
}
type wkCA24t19 struct {
	F0  [1]*wkCA24t0
	F1  [1]*wkCA24t1
	F2  [1]*wkCA24t2
	F3  [1]*wkCA24t3
	F4  [1]*wkCA24t4
	F5  [1]*wkCA24t5
	F6  [1]*wkCA24t6
	F7  [1]*wkCA24t7
	F8  [1]*wkCA24t8
	F9  [1]*wkCA24t9
	F10 [1]*wkCA24t10
	F11 [1]*wkCA24t11
	F12 [1]*wkCA24t12
	F13 [1]*wkCA24t13
	F14 [1]*wkCA24t14
	F15 [1]*wkCA24t15
	F16 [1]*wkCA24t16
	F17 [1]*wkCA24t17
	F18 [1]*wkCA24t18
	F19 [1]*wkCA24t19
	F20 [1]*wkCA24t20
	F21 [1]*wkCA24t21
	F22 [1]*wkCA24t22
	F23 [1]*wkCA24t23
}
type wkCA24t20 struct {
	F0  [1]*wkCA24t0
	F1  [1]*wkCA24t1
	F2  [1]*wkCA24t2
	F3  [1]*wkCA24t3
	F4  [1]*wkCA24t4
	F5  [1]*wkCA24t5
	F6  [1]*wkCA24t6
	F7  [1]*wkCA24t7
	F8  [1]*wkCA24t8
	F9  [1]*wkCA24t9
	F10 [1]*wkCA24t10
	F11 [1]*wkCA24t11
	F12 [1]*wkCA24t12
	F13 [1]*wkCA24t13
	F14 [1]*wkCA24t14
	F15 [1]*wkCA24t15
	F16 [1]*wkCA24t16
	F17 [1]*wkCA24t17
	F18 [1]*wkCA24t18
	F19 [1]*wkCA24t19
	F20 [1]*wkCA24t20
	F21 [1]*wkCA24t21
	F22 [1]*wkCA24t22
	F23 [1]*wkCA24t23
}
type wkCA24t21 struct {
	F0  [1]*wkCA24t0
	F1  [1]*wkCA24t1
	F2  [1]*wkCA24t2
	F3  [1]*wkCA24t3
	F4  [1]*wkCA24t4
	F5  [1]*wkCA24t5
	F6  [1]*wkCA24t6
	F7  [1]*wkCA24t7
	F8  [1]*wkCA24t8
	F9  [1]*wkCA24t9
	F10 [1]*wkCA24t10
	F11 [1]*wkCA24t11
	F12 [1]*wkCA24t12
	F13 [1]*wkCA24t13
	F14 [1]*wkCA24t14
	F15 [1]*wkCA24t15
	F16 [1]*wkCA24t16
	F17 [1]*wkCA24t17
	F18 [1]*wkCA24t18
	F19 [1]*wkCA24t19
	F20 [1]*wkCA24t20
	F21 [1]*wkCA24t21
	F22 [1]*wkCA24t22
	F23 [1]*wkCA24t23
}
type wkCA24t22 struct {
	F0  [1]*wkCA24t0
	F1  [1]*wkCA24t1
	F2  [1]*wkCA24t2
	F3  [1]*wkCA24t3
	F4  [1]*wkCA24t4
	F5  [1]*wkCA24t5
	F6  [1]*wkCA24t6
	F7  [1]*wkCA24t7
	F8  [1]*wkCA24t8
	F9  [1]*wkCA24t9
	F10 [1]*wkCA24t10
	F11 [1]*wkCA24t11
	F12 [1]*wkCA24t12
	F13 [1]*wkCA24t13
	F14 [1]*wkCA24t14
	F15 [1]*wkCA24t15
	F16 [1]*wkCA24t16
	F17 [1]*wkCA24t17
	F18 [1]*wkCA24t18
	F19 [1]*wkCA24t19
	F20 [1]*wkCA24t20
	F21 [1]*wkCA24t21
	F22 [1]*wkCA24t22
	F23 [1]*wkCA24t23
}
type wkCA24t23 struct {
	F0  [1]*wkCA24t0
	F1  [1]*wkCA24t1
	F2  [1]*wkCA24t2
	F3  [1]*wkCA24t3
	F4  [1]*wkCA24t4
	F5  [1]*wkCA24t5
	F6  [1]*wkCA24t6
	F7  [1]*wkCA24t7
	F8  [1]*wkCA24t8
	F9  [1]*wkCA24t9
	F10 [1]*wkCA24t10
	F11 [1]*wkCA24t11
	F12 [1]*wkCA24t12
	F13 [1]*wkCA24t13
	F14 [1]*wkCA24t14
	F15 [1]*wkCA24t15
	F16 [1]*wkCA24t16
	F17 [1]*wkCA24t17
	F18 [1]*wkCA24t18
	F19 [1]*wkCA24t19
	F20 [1]*wkCA24t20
	F21 [1]*wkCA24t21
	F22 [1]*wkCA24t22
	F23 [1]*wkCA24t23
}
type wkDA4t0 struct{ A int }
type wkDA4t1 struct {
	A [1]*wkDA4t0
	B [1]*wkDA4t0
	C [1]*wkDA4t0
}
type wkDA4t2 struct {
	A [1]*wkDA4t1
	B [1]*wkDA4t1
	C [1]*wkDA4t1
}
type wkDA4t3 struct {
	A [1]*wkDA4t2
	B [1]*wkDA4t2
	C [1]*wkDA4t2
}
type wkDA4t4 struct {
	A [1]*wkDA4t3
	B [1]*wkDA4t3
	C [1]*wkDA4t3
}
type wkDA8t0 struct{ A int }
type wkDA8t1 struct {
	A [1]*wkDA8t0
	B [1]*wkDA8t0
	C [1]*wkDA8t0
}
type wkDA8t2 struct {
	A [1]*wkDA8t1
	B [1]*wkDA8t1
	C [1]*wkDA8t1
}
type wkDA8t3 struct {
	A [1]*wkDA8t2
	B [1]*wkDA8t2
	C [1]*wkDA8t2
}
type wkDA8t4 struct {
	A [1]*wkDA8t3
	B [1]*wkDA8t3
	C [1]*wkDA8t3
}
type wkDA8t5 struct {
	A [1]*wkDA8t4
	B [1]*wkDA8t4
	C [1]*wkDA8t4
}
type wkDA8t6 struct {
	A [1]*wkDA8t5
	B [1]*wkDA8t5
	C [1]*wkDA8t5
}
type wkDA8t7 struct {
	A [1]*wkDA8t6
	B [1]*wkDA8t6
	C [1]*wkDA8t6
}
type wkDA8t8 struct {
	A [1]*wkDA8t7
	B [1]*wkDA8t7
	C [1]*wkDA8t7
}
type wkDA11t0 struct{ A int }
type wkDA11t1 struct {
	A [1]*wkDA11t0
	B [1]*wkDA11t0
	C [1]*wkDA11t0
}
type wkDA11t2 struct {
	A [1]*wkDA11t1
	B [1]*wkDA11t1
	C [1]*wkDA11t1
}
type wkDA11t3 struct {
	A [1]*wkDA11t2
	B [1]*wkDA11t2
	C [1]*wkDA11t2
}
type wkDA11t4 struct {
	A [1]*wkDA11t3
	B [1]*wkDA11t3
	C [1]*wkDA11t3
}
type wkDA11t5 struct {
	A [1]*wkDA11t4
	B [1]*wkDA11t4
	C [1]*wkDA11t4
}
type wkDA11t6 struct {
	A [1]*wkDA11t5
	B [1]*wkDA11t5
	C [1]*wkDA11t5
}
type wkDA11t7 struct {
	A [1]*wkDA11t6
	B [1]*wkDA11t6
	C [1]*wkDA11t6
}
type wkDA11t8 struct {
	A [1]*wkDA11t7
	B [1]*wkDA11t7
	C [1]*wkDA11t7
}
type wkDA11t9 struct {
	A [1]*wkDA11t8
	B [1]*wkDA11t8
	C [1]*wkDA11t8
}
type wkDA11t10 struct {
	A [1]*wkDA11t9
	B [1]*wkDA11t9
	C [1]*wkDA11t9
}
type wkDA11t11 struct {
	A [1]*wkDA11t10
	B [1]*wkDA11t10
	C [1]*wkDA11t10
}
type wkDA13t0 struct{ A int }
type wkDA13t1 struct {
	A [1]*wkDA13t0
	B [1]*wkDA13t0
	C [1]*wkDA13t0
}
type wkDA13t2 struct {
	A [1]*wkDA13t1
	B [1]*wkDA13t1
	C [1]*wkDA13t1
}
type wkDA13t3 struct {
	A [1]*wkDA13t2
	B [1]*wkDA13t2
	C [1]*wkDA13t2
}
type wkDA13t4 struct {
	A [1]*wkDA13t3
	B [1]*wkDA13t3
	C [1]*wkDA13t3
}
type wkDA13t5 struct {
	A [1]*wkDA13t4
	B [1]*wkDA13t4
	C [1]*wkDA13t4
}
type wkDA13t6 struct {
	A [1]*wkDA13t5
	B [1]*wkDA13t5
	C [1]*wkDA13t5
}
type wkDA13t7 struct {
	A [1]*wkDA13t6
	B [1]*wkDA13t6
	C [1]*wkDA13t6
}
type wkDA13t8 struct {
	A [1]*wkDA13t7
	B [1]*wkDA13t7
	C [1]*wkDA13t7
}
type wkDA13t9 struct {
	A [1]*wkDA13t8
	B [1]*wkDA13t8
	C [1]*wkDA13t8
}
type wkDA13t10 struct {
	A [1]*wkDA13t9
	B [1]*wkDA13t9
	C [1]*wkDA13t9
}
type wkDA13t11 struct {
	A [1]*wkDA13t10
	B [1]*wkDA13t10
	C [1]*wkDA13t10
}
type wkDA13t12 struct {
	A [1]*wkDA13t11
	B [1]*wkDA13t11
	C [1]*wkDA13t11
}
type wkDA13t13 struct {
	A [1]*wkDA13t12
	B [1]*wkDA13t12
	C [1]*wkDA13t12
}
type wkDA16t0 struct{ A int }
type wkDA16t1 struct {
	A [1]*wkDA16t0
	B [1]*wkDA16t0
	C [1]*wkDA16t0
}
type wkDA16t2 struct {
	A [1]*wkDA16t1
	B [1]*wkDA16t1
	C [1]*wkDA16t1
}
type wkDA16t3 struct {
	A [1]*wkDA16t2
	B [1]*wkDA16t2
	C [1]*wkDA16t2
}
type wkDA16t4 struct {
	A [1]*wkDA16t3
	B [1]*wkDA16t3
	C [1]*wkDA16t3
}
type wkDA16t5 struct {
	A [1]*wkDA16t4
	B [1]*wkDA16t4
	C [1]*wkDA16t4
}
type wkDA16t6 struct {
	A [1]*wkDA16t5
	B [1]*wkDA16t5
	C [1]*wkDA16t5
}
type wkDA16t7 struct {
	A [1]*wkDA16t6
	B [1]*wkDA16t6
	C [1]*wkDA16t6
}
type wkDA16t8 struct {
	A [1]*wkDA16t7
	B [1]*wkDA16t7
	C [1]*wkDA16t7
}
type wkDA16t9 struct {
	A [1]*wkDA16t8
	B [1]*wkDA16t8
	C [1]*wkDA16t8
}
type wkDA16t10 struct {
	A [1]*wkDA16t9
	B [1]*wkDA16t9
	C [1]*wkDA16t9
}
type wkDA16t11 struct {
	A [1]*wkDA16t10
	B [1]*wkDA16t10
	C [1]*wkDA16t10
}
type wkDA16t12 struct {
	A [1]*wkDA16t11
	B [1]*wkDA16t11
	C [1]*wkDA16t11
}
type wkDA16t13 struct {
	A [1]*wkDA16t12
	B [1]*wkDA16t12
	C [1]*wkDA16t12
}
type wkDA16t14 struct {
	A [1]*wkDA16t13
	B [1]*wkDA16t13
	C [1]*wkDA16t13
}
type wkDA16t15 struct {
	A [1]*wkDA16t14
	B [1]*wkDA16t14
	C [1]*wkDA16t14
}
type wkDA16t16 struct {
	A [1]*wkDA16t15
	B [1]*wkDA16t15
	C [1]*wkDA16t15
}
type wkDA40t0 struct{ A int }
type wkDA40t1 struct {
	A [1]*wkDA40t0
	B [1]*wkDA40t0
	C [1]*wkDA40t0
}
type wkDA40t2 struct {
	A [1]*wkDA40t1
	B [1]*wkDA40t1
	C [1]*wkDA40t1
}
type wkDA40t3 struct {
	A [1]*wkDA40t2
	B [1]*wkDA40t2
	C [1]*wkDA40t2
}
type wkDA40t4 struct {
	A [1]*wkDA40t3
	B [1]*wkDA40t3
	C [1]*wkDA40t3
}
type wkDA40t5 struct {
	A [1]*wkDA40t4
	B [1]*wkDA40t4
	C [1]*wkDA40t4
}
type wkDA40t6 struct {
	A [1]*wkDA40t5
	B [1]*wkDA40t5
	C [1]*wkDA40t5
}
type wkDA40t7 struct {
	A [1]*wkDA40t6
	B [1]*wkDA40t6
	C [1]*wkDA40t6
}
type wkDA40t8 struct {
	A [1]*wkDA40t7
	B [1]*wkDA40t7
	C [1]*wkDA40t7
}
type wkDA40t9 struct {
	A [1]*wkDA40t8
	B [1]*wkDA40t8
	C [1]*wkDA40t8
}
type wkDA40t10 struct {
	A [1]*wkDA40t9
	B [1]*wkDA40t9
	C [1]*wkDA40t9
}
type wkDA40t11 struct {
	A [1]*wkDA40t10
	B [1]*wkDA40t10
	C [1]*wkDA40t10
}
type wkDA40t12 struct {
	A [1]*wkDA40t11
	B [1]*wkDA40t11
	C [1]*wkDA40t11
}
type wkDA40t13 struct {
	A [1]*wkDA40t12
	B [1]*wkDA40t12
	C [1]*wkDA40t12
}
type wkDA40t14 struct {
	A [1]*wkDA40t13
	B [1]*wkDA40t13
	C [1]*wkDA40t13
}
type wkDA40t15 struct {
	A [1]*wkDA40t14
	B [1]*wkDA40t14
	C [1]*wkDA40t14
}
type wkDA40t16 struct {
	A [1]*wkDA40t15
	B [1]*wkDA40t15
	C [1]*wkDA40t15
}
type wkDA40t17 struct {
	A [1]*wkDA40t16
	B [1]*wkDA40t16
	C [1]*wkDA40t16
}
type wkDA40t18 struct {
	A [1]*wkDA40t17
	B [1]*wkDA40t17
	C [1]*wkDA40t17
}
type wkDA40t19 struct {
	A [1]*wkDA40t18
	B [1]*wkDA40t18
	C [1]*wkDA40t18
}
type wkDA40t20 struct {
	A [1]*wkDA40t19
	B [1]*wkDA40t19
	C [1]*wkDA40t19
}
type wkDA40t21 struct {
	A [1]*wkDA40t20
	B [1]*wkDA40t20
	C [1]*wkDA40t20
}
type wkDA40t22 struct {
	A [1]*wkDA40t21
	B [1]*wkDA40t21
	C [1]*wkDA40t21
}
type wkDA40t23 struct {
	A [1]*wkDA40t22
	B [1]*wkDA40t22
	C [1]*wkDA40t22
}
type wkDA40t24 struct {
	A [1]*wkDA40t23
	B [1]*wkDA40t23
	C [1]*wkDA40t23
}
type wkDA40t25 struct {
	A [1]*wkDA40t24
	B [1]*wkDA40t24
	C [1]*wkDA40t24
}
type wkDA40t26 struct {
	A [1]*wkDA40t25
	B [1]*wkDA40t25
	C [1]*wkDA40t25
}
type wkDA40t27 struct {
	A [1]*wkDA40t26
	B [1]*wkDA40t26
	C [1]*wkDA40t26
}
type wkDA40t28 struct {
	A [1]*wkDA40t27
	B [1]*wkDA40t27
	C [1]*wkDA40t27
}
type wkDA40t29 struct {
	A [1]*wkDA40t28
	B [1]*wkDA40t28
	C [1]*wkDA40t28
}
type wkDA40t30 struct {
	A [1]*wkDA40t29
	B [1]*wkDA40t29
	C [1]*wkDA40t29
}
type wkDA40t31 struct {
	A [1]*wkDA40t30
	B [1]*wkDA40t30
	C [1]*wkDA40t30
}
type wkDA40t32 struct {
	A [1]*wkDA40t31
	B [1]*wkDA40t31
	C [1]*wkDA40t31
}
type wkDA40t33 struct {
	A [1]*wkDA40t32
	B [1]*wkDA40t32
	C [1]*wkDA40t32
}
type wkDA40t34 struct {
	A [1]*wkDA40t33
	B [1]*wkDA40t33
	C [1]*wkDA40t33
}
type wkDA40t35 struct {
	A [1]*wkDA40t34
	B [1]*wkDA40t34
	C [1]*wkDA40t34
}
type wkDA40t36 struct {
	A [1]*wkDA40t35
	B [1]*wkDA40t35
	C [1]*wkDA40t35
}
type wkDA40t37 struct {
	A [1]*wkDA40t36
	B [1]*wkDA40t36
	C [1]*wkDA40t36
}
type wkDA40t38 struct {
	A [1]*wkDA40t37
	B [1]*wkDA40t37
	C [1]*wkDA40t37
}
type wkDA40t39 struct {
	A [1]*wkDA40t38
	B [1]*wkDA40t38
	C [1]*wkDA40t38
}
type wkDA40t40 struct {
	A [1]*wkDA40t39
	B [1]*wkDA40t39
	C [1]*wkDA40t39
}
type wkOA8t0 struct {
	F1 [1]*wkOA8t1
	F2 [1]*wkOA8t2
	F3 [1]*wkOA8t3
	F4 [1]*wkOA8t4
	F5 [1]*wkOA8t5
	F6 [1]*wkOA8t6
	F7 [1]*wkOA8t7
}
type wkOA8t1 struct {
	F2 [1]*wkOA8t2
	F3 [1]*wkOA8t3
	F4 [1]*wkOA8t4
	F5 [1]*wkOA8t5
	F6 [1]*wkOA8t6
	F7 [1]*wkOA8t7
}
type wkOA8t2 struct {
	F3 [1]*wkOA8t3
	F4 [1]*wkOA8t4
	F5 [1]*wkOA8t5
	F6 [1]*wkOA8t6
	F7 [1]*wkOA8t7
}
type wkOA8t3 struct {
	F4 [1]*wkOA8t4
	F5 [1]*wkOA8t5
	F6 [1]*wkOA8t6
	F7 [1]*wkOA8t7
}
type wkOA8t4 struct {
	F5 [1]*wkOA8t5
	F6 [1]*wkOA8t6
	F7 [1]*wkOA8t7
}
type wkOA8t5 struct {
	F6 [1]*wkOA8t6
	F7 [1]*wkOA8t7
}
type wkOA8t6 struct{ F7 [1]*wkOA8t7 }
type wkOA8t7 struct{ F0 [1]*wkOA8t0 }
type wkOA16t0 struct {
	F1  [1]*wkOA16t1
	F2  [1]*wkOA16t2
	F3  [1]*wkOA16t3
	F4  [1]*wkOA16t4
	F5  [1]*wkOA16t5
	F6  [1]*wkOA16t6
	F7  [1]*wkOA16t7
	F8  [1]*wkOA16t8
	F9  [1]*wkOA16t9
	F10 [1]*wkOA16t10
	F11 [1]*wkOA16t11
	F12 [1]*wkOA16t12
	F13 [1]*wkOA16t13
	F14 [1]*wkOA16t14
	F15 [1]*wkOA16t15
}
type wkOA16t1 struct {
	F2  [1]*wkOA16t2
	F3  [1]*wkOA16t3
	F4  [1]*wkOA16t4
	F5  [1]*wkOA16t5
	F6  [1]*wkOA16t6
	F7  [1]*wkOA16t7
	F8  [1]*wkOA16t8
	F9  [1]*wkOA16t9
	F10 [1]*wkOA16t10
	F11 [1]*wkOA16t11
	F12 [1]*wkOA16t12
	F13 [1]*wkOA16t13
	F14 [1]*wkOA16t14
	F15 [1]*wkOA16t15
}
type wkOA16t2 struct {
	F3  [1]*wkOA16t3
	F4  [1]*wkOA16t4
	F5  [1]*wkOA16t5
	F6  [1]*wkOA16t6
	F7  [1]*wkOA16t7
	F8  [1]*wkOA16t8
	F9  [1]*wkOA16t9
	F10 [1]*wkOA16t10
	F11 [1]*wkOA16t11
	F12 [1]*wkOA16t12
	F13 [1]*wkOA16t13
	F14 [1]*wkOA16t14
	F15 [1]*wkOA16t15
}
type wkOA16t3 struct {
	F4  [1]*wkOA16t4
	F5  [1]*wkOA16t5
	F6  [1]*wkOA16t6
	F7  [1]*wkOA16t7
	F8  [1]*wkOA16t8
	F9  [1]*wkOA16t9
	F10 [1]*wkOA16t10
	F11 [1]*wkOA16t11
	F12 [1]*wkOA16t12
	F13 [1]*wkOA16t13
	F14 [1]*wkOA16t14
	F15 [1]*wkOA16t15
}
type wkOA16t4 struct {
	F5  [1]*wkOA16t5
	F6  [1]*wkOA16t6
	F7  [1]*wkOA16t7
	F8  [1]*wkOA16t8
	F9  [1]*wkOA16t9
	F10 [1]*wkOA16t10
	F11 [1]*wkOA16t11
	F12 [1]*wkOA16t12
	F13 [1]*wkOA16t13
	F14 [1]*wkOA16t14
	F15 [1]*wkOA16t15
}
type wkOA16t5 struct {
	F6  [1]*wkOA16t6
	F7  [1]*wkOA16t7
	F8  [1]*wkOA16t8
	F9  [1]*wkOA16t9
	F10 [1]*wkOA16t10
	F11 [1]*wkOA16t11
	F12 [1]*wkOA16t12
	F13 [1]*wkOA16t13
	F14 [1]*wkOA16t14
	F15 [1]*wkOA16t15
}
type wkOA16t6 struct {
	F7  [1]*wkOA16t7
	F8  [1]*wkOA16t8
	F9  [1]*wkOA16t9
	F10 [1]*wkOA16t10
	F11 [1]*wkOA16t11
	F12 [1]*wkOA16t12
	F13 [1]*wkOA16t13
	F14 [1]*wkOA16t14
	F15 [1]*wkOA16t15
}
type wkOA16t7 struct {
	F8  [1]*wkOA16t8
	F9  [1]*wkOA16t9
	F10 [1]*wkOA16t10
	F11 [1]*wkOA16t11
	F12 [1]*wkOA16t12
	F13 [1]*wkOA16t13
	F14 [1]*wkOA16t14
	F15 [1]*wkOA16t15
}
type wkOA16t8 struct {
	F9  [1]*wkOA16t9
	F10 [1]*wkOA16t10
	F11 [1]*wkOA16t11
	F12 [1]*wkOA16t12
	F13 [1]*wkOA16t13
	F14 [1]*wkOA16t14
	F15 [1]*wkOA16t15
}
type wkOA16t9 struct {
	F10 [1]*wkOA16t10
	F11 [1]*wkOA16t11
	F12 [1]*wkOA16t12
	F13 [1]*wkOA16t13
	F14 [1]*wkOA16t14
	F15 [1]*wkOA16t15
}
type wkOA16t10 struct {
	F11 [1]*wkOA16t11
	F12 [1]*wkOA16t12
	F13 [1]*wkOA16t13
	F14 [1]*wkOA16t14
	F15 [1]*wkOA16t15
}
type wkOA16t11 struct {
	F12 [1]*wkOA16t12
	F13 [1]*wkOA16t13
	F14 [1]*wkOA16t14
	F15 [1]*wkOA16t15
}
type wkOA16t12 struct {
	F13 [1]*wkOA16t13
	F14 [1]*wkOA16t14
	F15 [1]*wkOA16t15
}
type wkOA16t13 struct {
	F14 [1]*wkOA16t14
	F15 [1]*wkOA16t15
}
type wkOA16t14 struct{ F15 [1]*wkOA16t15 }
type wkOA16t15 struct{ F0 [1]*wkOA16t0 }
type wkOA20t0 struct {
	F1  [1]*wkOA20t1
	F2  [1]*wkOA20t2
	F3  [1]*wkOA20t3
	F4  [1]*wkOA20t4
	F5  [1]*wkOA20t5
	F6  [1]*wkOA20t6
	F7  [1]*wkOA20t7
	F8  [1]*wkOA20t8
	F9  [1]*wkOA20t9
	F10 [1]*wkOA20t10
	F11 [1]*wkOA20t11
	F12 [1]*wkOA20t12
	F13 [1]*wkOA20t13
	F14 [1]*wkOA20t14
	F15 [1]*wkOA20t15
	F16 [1]*wkOA20t16
	F17 [1]*wkOA20t17
	F18 [1]*wkOA20t18
	F19 [1]*wkOA20t19
}
type wkOA20t1 struct {
	F2  [1]*wkOA20t2
	F3  [1]*wkOA20t3
	F4  [1]*wkOA20t4
	F5  [1]*wkOA20t5
	F6  [1]*wkOA20t6
	F7  [1]*wkOA20t7
	F8  [1]*wkOA20t8
	F9  [1]*wkOA20t9
	F10 [1]*wkOA20t10
	F11 [1]*wkOA20t11
	F12 [1]*wkOA20t12
	F13 [1]*wkOA20t13
	F14 [1]*wkOA20t14
	F15 [1]*wkOA20t15
	F16 [1]*wkOA20t16
	F17 [1]*wkOA20t17
	F18 [1]*wkOA20t18
	F19 [1]*wkOA20t19
}
type wkOA20t2 struct {
	F3  [1]*wkOA20t3
	F4  [1]*wkOA20t4
	F5  [1]*wkOA20t5
	F6  [1]*wkOA20t6
	F7  [1]*wkOA20t7
	F8  [1]*wkOA20t8
	F9  [1]*wkOA20t9
	F10 [1]*wkOA20t10
	F11 [1]*wkOA20t11
	F12 [1]*wkOA20t12
	F13 [1]*wkOA20t13
	F14 [1]*wkOA20t14
	F15 [1]*wkOA20t15
	F16 [1]*wkOA20t16
	F17 [1]*wkOA20t17
	F18 [1]*wkOA20t18
	F19 [1]*wkOA20t19
}
type wkOA20t3 struct {
	F4  [1]*wkOA20t4
	F5  [1]*wkOA20t5
	F6  [1]*wkOA20t6
	F7  [1]*wkOA20t7
	F8  [1]*wkOA20t8
	F9  [1]*wkOA20t9
	F10 [1]*wkOA20t10
	F11 [1]*wkOA20t11
	F12 [1]*wkOA20t12
	F13 [1]*wkOA20t13
	F14 [1]*wkOA20t14
	F15 [1]*wkOA20t15
	F16 [1]*wkOA20t16
	F17 [1]*wkOA20t17
	F18 [1]*wkOA20t18
	F19 [1]*wkOA20t19
}
type wkOA20t4 struct {
	F5  [1]*wkOA20t5
	F6  [1]*wkOA20t6
	F7  [1]*wkOA20t7
	F8  [1]*wkOA20t8
	F9  [1]*wkOA20t9
	F10 [1]*wkOA20t10
	F11 [1]*wkOA20t11
	F12 [1]*wkOA20t12
	F13 [1]*wkOA20t13
	F14 [1]*wkOA20t14
	F15 [1]*wkOA20t15
	F16 [1]*wkOA20t16
	F17 [1]*wkOA20t17
	F18 [1]*wkOA20t18
	F19 [1]*wkOA20t19
}
type wkOA20t5 struct {
	F6  [1]*wkOA20t6
	F7  [1]*wkOA20t7
	F8  [1]*wkOA20t8
	F9  [1]*wkOA20t9
	F10 [1]*wkOA20t10
	F11 [1]*wkOA20t11
	F12 [1]*wkOA20t12
	F13 [1]*wkOA20t13
	F14 [1]*wkOA20t14
	F15 [1]*wkOA20t15
	F16 [1]*wkOA20t16
	F17 [1]*wkOA20t17
	F18 [1]*wkOA20t18
	F19 [1]*wkOA20t19
}
type wkOA20t6 struct {
	F7  [1]*wkOA20t7
	F8  [1]*wkOA20t8
	F9  [1]*wkOA20t9
	F10 [1]*wkOA20t10
	F11 [1]*wkOA20t11
	F12 [1]*wkOA20t12
	F13 [1]*wkOA20t13
	F14 [1]*wkOA20t14
	F15 [1]*wkOA20t15
	F16 [1]*wkOA20t16
	F17 [1]*wkOA20t17
	F18 [1]*wkOA20t18
	F19 [1]*wkOA20t19
}
type wkOA20t7 struct {
	F8  [1]*wkOA20t8
	F9  [1]*wkOA20t9
	F10 [1]*wkOA20t10
	F11 [1]*wkOA20t11
	F12 [1]*wkOA20t12
	F13 [1]*wkOA20t13
	F14 [1]*wkOA20t14
	F15 [1]*wkOA20t15
	F16 [1]*wkOA20t16
	F17 [1]*wkOA20t17
	F18 [1]*wkOA20t18
	F19 [1]*wkOA20t19
}
type wkOA20t8 struct {
	F9  [1]*wkOA20t9
	F10 [1]*wkOA20t10
	F11 [1]*wkOA20t11
	F12 [1]*wkOA20t12
	F13 [1]*wkOA20t13
	F14 [1]*wkOA20t14
	F15 [1]*wkOA20t15
	F16 [1]*wkOA20t16
	F17 [1]*wkOA20t17
	F18 [1]*wkOA20t18
	F19 [1]*wkOA20t19
}
type wkOA20t9 struct {
	F10 [1]*wkOA20t10
	F11 [1]*wkOA20t11
	F12 [1]*wkOA20t12
	F13 [1]*wkOA20t13
	F14 [1]*wkOA20t14
	F15 [1]*wkOA20t15
	F16 [1]*wkOA20t16
	F17 [1]*wkOA20t17
	F18 [1]*wkOA20t18
	F19 [1]*wkOA20t19
}
type wkOA20t10 struct {
	F11 [1]*wkOA20t11
	F12 [1]*wkOA20t12
	F13 [1]*wkOA20t13
	F14 [1]*wkOA20t14
	F15 [1]*wkOA20t15
	F16 [1]*wkOA20t16
	F17 [1]*wkOA20t17
	F18 [1]*wkOA20t18
	F19 [1]*wkOA20t19
}
type wkOA20t11 struct {
	F12 [1]*wkOA20t12
	F13 [1]*wkOA20t13
	F14 [1]*wkOA20t14
	F15 [1]*wkOA20t15
	F16 [1]*wkOA20t16
	F17 [1]*wkOA20t17
	F18 [1]*wkOA20t18
	F19 [1]*wkOA20t19
}
type wkOA20t12 struct {
	F13 [1]*wkOA20t13
	F14 [1]*wkOA20t14
	F15 [1]*wkOA20t15
	F16 [1]*wkOA20t16
	F17 [1]*wkOA20t17
	F18 [1]*wkOA20t18
	F19 [1]*wkOA20t19
}
type wkOA20t13 struct {
	F14 [1]*wkOA20t14
	F15 [1]*wkOA20t15
	F16 [1]*wkOA20t16
	F17 [1]*wkOA20t17
	F18 [1]*wkOA20t18
	F19 [1]*wkOA20t19
}
type wkOA20t14 struct {
	F15 [1]*wkOA20t15
	F16 [1]*wkOA20t16
	F17 [1]*wkOA20t17
	F18 [1]*wkOA20t18
	F19 [1]*wkOA20t19
}
type wkOA20t15 struct {
	F16 [1]*wkOA20t16
	F17 [1]*wkOA20t17
	F18 [1]*wkOA20t18
	F19 [1]*wkOA20t19
}
type wkOA20t16 struct {
	F17 [1]*wkOA20t17
	F18 [1]*wkOA20t18
	F19 [1]*wkOA20t19
}
type wkOA20t17 struct {
	F18 [1]*wkOA20t18
	F19 [1]*wkOA20t19
}
type wkOA20t18 struct{ F19 [1]*wkOA20t19 }
type wkOA20t19 struct{ F0 [1]*wkOA20t0 }
type wkOA24t0 struct {
	F1  [1]*wkOA24t1
	F2  [1]*wkOA24t2
	F3  [1]*wkOA24t3
	F4  [1]*wkOA24t4
	F5  [1]*wkOA24t5
	F6  [1]*wkOA24t6
	F7  [1]*wkOA24t7
	F8  [1]*wkOA24t8
	F9  [1]*wkOA24t9
	F10 [1]*wkOA24t10
	F11 [1]*wkOA24t11
	F12 [1]*wkOA24t12
	F13 [1]*wkOA24t13
	F14 [1]*wkOA24t14
	F15 [1]*wkOA24t15
	F16 [1]*wkOA24t16
	F17 [1]*wkOA24t17
	F18 [1]*wkOA24t18
	F19 [1]*wkOA24t19
	F20 [1]*wkOA24t20
	F21 [1]*wkOA24t21
	F22 [1]*wkOA24t22
	F23 [1]*wkOA24t23
}
type wkOA24t1 struct {
	F2  [1]*wkOA24t2
	F3  [1]*wkOA24t3
	F4  [1]*wkOA24t4
	F5  [1]*wkOA24t5
	F6  [1]*wkOA24t6
	F7  [1]*wkOA24t7
	F8  [1]*wkOA24t8
	F9  [1]*wkOA24t9
	F10 [1]*wkOA24t10
	F11 [1]*wkOA24t11
	F12 [1]*wkOA24t12
	F13 [1]*wkOA24t13
	F14 [1]*wkOA24t14
	F15 [1]*wkOA24t15
	F16 [1]*wkOA24t16
	F17 [1]*wkOA24t17
	F18 [1]*wkOA24t18
	F19 [1]*wkOA24t19
	F20 [1]*wkOA24t20
	F21 [1]*wkOA24t21
	F22 [1]*wkOA24t22
	F23 [1]*wkOA24t23
}
type wkOA24t2 struct {
	F3  [1]*wkOA24t3
	F4  [1]*wkOA24t4
	F5  [1]*wkOA24t5
	F6  [1]*wkOA24t6
	F7  [1]*wkOA24t7
	F8  [1]*wkOA24t8
	F9  [1]*wkOA24t9
	F10 [1]*wkOA24t10
	F11 [1]*wkOA24t11
	F12 [1]*wkOA24t12
	F13 [1]*wkOA24t13
	F14 [1]*wkOA24t14
	F15 [1]*wkOA24t15
	F16 [1]*wkOA24t16
	F17 [1]*wkOA24t17
	F18 [1]*wkOA24t18
	F19 [1]*wkOA24t19
	F20 [1]*wkOA24t20
	F21 [1]*wkOA24t21
	F22 [1]*wkOA24t22
	F23 [1]*wkOA24t23
}
type wkOA24t3 struct {
	F4  [1]*wkOA24t4
	F5  [1]*wkOA24t5
	F6  [1]*wkOA24t6
	F7  [1]*wkOA24t7
	F8  [1]*wkOA24t8
	F9  [1]*wkOA24t9
	F10 [1]*wkOA24t10
	F11 [1]*wkOA24t11
	F12 [1]*wkOA24t12
	F13 [1]*wkOA24t13
	F14 [1]*wkOA24t14
	F15 [1]*wkOA24t15
	F16 [1]*wkOA24t16
	F17 [1]*wkOA24t17
	F18 [1]*wkOA24t18
	F19 [1]*wkOA24t19
	F20 [1]*wkOA24t20
	F21 [1]*wkOA24t21
	F22 [1]*wkOA24t22
	F23 [1]*wkOA24t23
}
type wkOA24t4 struct {
	F5  [1]*wkOA24t5
	F6  [1]*wkOA24t6
	F7  [1]*wkOA24t7
	F8  [1]*wkOA24t8
	F9  [1]*wkOA24t9
	F10 [1]*wkOA24t10
	F11 [1]*wkOA24t11
	F12 [1]*wkOA24t12
	F13 [1]*wkOA24t13
	F14 [1]*wkOA24t14
	F15 [1]*wkOA24t15
	F16 [1]*wkOA24t16
	F17 [1]*wkOA24t17
	F18 [1]*wkOA24t18
	F19 [1]*wkOA24t19
	F20 [1]*wkOA24t20
	F21 [1]*wkOA24t21
	F22 [1]*wkOA24t22
	F23 [1]*wkOA24t23
}
type wkOA24t5 struct {
	F6  [1]*wkOA24t6
	F7  [1]*wkOA24t7
	F8  [1]*wkOA24t8
	F9  [1]*wkOA24t9
	F10 [1]*wkOA24t10
	F11 [1]*wkOA24t11
	F12 [1]*wkOA24t12
	F13 [1]*wkOA24t13
	F14 [1]*wkOA24t14
	F15 [1]*wkOA24t15
	F16 [1]*wkOA24t16
	F17 [1]*wkOA24t17
	F18 [1]*wkOA24t18
	F19 [1]*wkOA24t19
	F20 [1]*wkOA24t20
	F21 [1]*wkOA24t21
	F22 [1]*wkOA24t22
	F23 [1]*wkOA24t23
}
type wkOA24t6 struct {
	F7  [1]*wkOA24t7
	F8  [1]*wkOA24t8
	F9  [1]*wkOA24t9
	F10 [1]*wkOA24t10
	F11 [1]*wkOA24t11
	F12 [1]*wkOA24t12
	F13 [1]*wkOA24t13
	F14 [1]*wkOA24t14
	F15 [1]*wkOA24t15
	F16 [1]*wkOA24t16
	F17 [1]*wkOA24t17
	F18 [1]*wkOA24t18
	F19 [1]*wkOA24t19
	F20 [1]*wkOA24t20
	F21 [1]*wkOA24t21
	F22 [1]*wkOA24t22
	F23 [1]*wkOA24t23
}
type wkOA24t7 struct {
	F8  [1]*wkOA24t8
	F9  [1]*wkOA24t9
	F10 [1]*wkOA24t10
	F11 [1]*wkOA24t11
	F12 [1]*wkOA24t12
	F13 [1]*wkOA24t13
	F14 [1]*wkOA24t14
	F15 [1]*wkOA24t15
	F16 [1]*wkOA24t16
	F17 [1]*wkOA24t17
	F18 [1]*wkOA24t18
	F19 [1]*wkOA24t19
	F20 [1]*wkOA24t20
	F21 [1]*wkOA24t21
	F22 [1]*wkOA24t22
	F23 [1]*wkOA24t23
}
type wkOA24t8 struct {
	F9  [1]*wkOA24t9
	F10 [1]*wkOA24t10
	F11 [1]*wkOA24t11
	F12 [1]*wkOA24t12
	F13 [1]*wkOA24t13
	F14 [1]*wkOA24t14
	F15 [1]*wkOA24t15
	F16 [1]*wkOA24t16
	F17 [1]*wkOA24t17
	F18 [1]*wkOA24t18
	F19 [1]*wkOA24t19
	F20 [1]*wkOA24t20
	F21 [1]*wkOA24t21
	F22 [1]*wkOA24t22
	F23 [1]*wkOA24t23
}
type wkOA24t9 struct {
	F10 [1]*wkOA24t10
	F11 [1]*wkOA24t11
	F12 [1]*wkOA24t12
	F13 [1]*wkOA24t13
	F14 [1]*wkOA24t14
	F15 [1]*wkOA24t15
	F16 [1]*wkOA24t16
	F17 [1]*wkOA24t17
	F18 [1]*wkOA24t18
	F19 [1]*wkOA24t19
	F20 [1]*wkOA24t20
	F21 [1]*wkOA24t21
	F22 [1]*wkOA24t22
	F23 [1]*wkOA24t23
}
type wkOA24t10 struct {
	F11 [1]*wkOA24t11
	F12 [1]*wkOA24t12
	F13 [1]*wkOA24t13
	F14 [1]*wkOA24t14
	F15 [1]*wkOA24t15
	F16 [1]*wkOA24t16
	F17 [1]*wkOA24t17
	F18 [1]*wkOA24t18
	F19 [1]*wkOA24t19
	F20 [1]*wkOA24t20
	F21 [1]*wkOA24t21
	F22 [1]*wkOA24t22
	F23 [1]*wkOA24t23
}
type wkOA24t11 struct {
	F12 [1]*wkOA24t12
	F13 [1]*wkOA24t13
	F14 [1]*wkOA24t14
	F15 [1]*wkOA24t15
	F16 [1]*wkOA24t16
	F17 [1]*wkOA24t17
	F18 [1]*wkOA24t18
	F19 [1]*wkOA24t19
	F20 [1]*wkOA24t20
	F21 [1]*wkOA24t21
	F22 [1]*wkOA24t22
	F23 [1]*wkOA24t23
}
type wkOA24t12 struct {
	F13 [1]*wkOA24t13
	F14 [1]*wkOA24t14
	F15 [1]*wkOA24t15
	F16 [1]*wkOA24t16
	F17 [1]*wkOA24t17
	F18 [1]*wkOA24t18
	F19 [1]*wkOA24t19
	F20 [1]*wkOA24t20
	F21 [1]*wkOA24t21
	F22 [1]*wkOA24t22
	F23 [1]*wkOA24t23
}
type wkOA24t13 struct {
	F14 [1]*wkOA24t14
	F15 [1]*wkOA24t15
	F16 [1]*wkOA24t16
	F17 [1]*wkOA24t17
	F18 [1]*wkOA24t18
	F19 [1]*wkOA24t19
	F20 [1]*wkOA24t20
	F21 [1]*wkOA24t21
	F22 [1]*wkOA24t22
	F23 [1]*wkOA24t23
}
type wkOA24t14 struct {
	F15 [1]*wkOA24t15
	F16 [1]*wkOA24t16
	F17 [1]*wkOA24t17
	F18 [1]*wkOA24t18
	F19 [1]*wkOA24t19
	F20 [1]*wkOA24t20
	F21 [1]*wkOA24t21
	F22 [1]*wkOA24t22
	F23 [1]*wkOA24t23
}
type wkOA24t15 struct {
	F16 [1]*wkOA24t16
	F17 [1]*wkOA24t17
	F18 [1]*wkOA24t18
	F19 [1]*wkOA24t19
	F20 [1]*wkOA24t20
	F21 [1]*wkOA24t21
	F22 [1]*wkOA24t22
	F23 [1]*wkOA24t23
}
type wkOA24t16 struct {
	F17 [1]*wkOA24t17
	F18 [1]*wkOA24t18
	F19 [1]*wkOA24t19
	F20 [1]*wkOA24t20
	F21 [1]*wkOA24t21
	F22 [1]*wkOA24t22
	F23 [1]*wkOA24t23
}
type wkOA24t17 struct {
	F18 [1]*wkOA24t18
	F19 [1]*wkOA24t19
	F20 [1]*wkOA24t20
	F21 [1]*wkOA24t21
	F22 [1]*wkOA24t22
	F23 [1]*wkOA24t23
}
type wkOA24t18 struct {
	F19 [1]*wkOA24t19
	F20 [1]*wkOA24t20
	F21 [1]*wkOA24t21
	F22 [1]*wkOA24t22
	F23 [1]*wkOA24t23
}
type wkOA24t19 struct {
	F20 [1]*wkOA24t20
	F21 [1]*wkOA24t21
	F22 [1]*wkOA24t22
	F23 [1]*wkOA24t23
}
type wkOA24t20 struct {
	F21 [1]*wkOA24t21
	F22 [1]*wkOA24t22
	F23 [1]*wkOA24t23
}
type wkOA24t21 struct {
	F22 [1]*wkOA24t22
	F23 [1]*wkOA24t23
}
type wkOA24t22 struct{ F23 [1]*wkOA24t23 }
type wkOA24t23 struct{ F0 [1]*wkOA24t0 }
type wkOA40t0 struct {
	F1  [1]*wkOA40t1
	F2  [1]*wkOA40t2
	F3  [1]*wkOA40t3
	F4  [1]*wkOA40t4
	F5  [1]*wkOA40t5
	F6  [1]*wkOA40t6
	F7  [1]*wkOA40t7
	F8  [1]*wkOA40t8
	F9  [1]*wkOA40t9
	F10 [1]*wkOA40t10
	F11 [1]*wkOA40t11
	F12 [1]*wkOA40t12
	F13 [1]*wkOA40t13
	F14 [1]*wkOA40t14
	F15 [1]*wkOA40t15
	F16 [1]*wkOA40t16
	F17 [1]*wkOA40t17
	F18 [1]*wkOA40t18
	F19 [1]*wkOA40t19
	F20 [1]*wkOA40t20
	F21 [1]*wkOA40t21
	F22 [1]*wkOA40t22
	F23 [1]*wkOA40t23
	F24 [1]*wkOA40t24
	F25 [1]*wkOA40t25
	F26 [1]*wkOA40t26
	F27 [1]*wkOA40t27
	F28 [1]*wkOA40t28
	F29 [1]*wkOA40t29
	F30 [1]*wkOA40t30
	F31 [1]*wkOA40t31
	F32 [1]*wkOA40t32
	F33 [1]*wkOA40t33
	F34 [1]*wkOA40t34
	F35 [1]*wkOA40t35
	F36 [1]*wkOA40t36
	F37 [1]*wkOA40t37
	F38 [1]*wkOA40t38
	F39 [1]*wkOA40t39
}
type wkOA40t1 struct {
	F2  [1]*wkOA40t2
	F3  [1]*wkOA40t3
	F4  [1]*wkOA40t4
	F5  [1]*wkOA40t5
	F6  [1]*wkOA40t6
	F7  [1]*wkOA40t7
	F8  [1]*wkOA40t8
	F9  [1]*wkOA40t9
	F10 [1]*wkOA40t10
	F11 [1]*wkOA40t11
	F12 [1]*wkOA40t12
	F13 [1]*wkOA40t13
	F14 [1]*wkOA40t14
	F15 [1]*wkOA40t15
	F16 [1]*wkOA40t16
	F17 [1]*wkOA40t17
	F18 [1]*wkOA40t18
	F19 [1]*wkOA40t19
	F20 [1]*wkOA40t20
	F21 [1]*wkOA40t21
	F22 [1]*wkOA40t22
	F23 [1]*wkOA40t23
	F24 [1]*wkOA40t24
	F25 [1]*wkOA40t25
	F26 [1]*wkOA40t26
	F27 [1]*wkOA40t27
	F28 [1]*wkOA40t28
	F29 [1]*wkOA40t29
	F30 [1]*wkOA40t30
	F31 [1]*wkOA40t31
	F32 [1]*wkOA40t32
	F33 [1]*wkOA40t33
	F34 [1]*wkOA40t34
	F35 [1]*wkOA40t35
	F36 [1]*wkOA40t36
	F37 [1]*wkOA40t37
	F38 [1]*wkOA40t38
	F39 [1]*wkOA40t39
}
type wkOA40t2 struct {
	F3  [1]*wkOA40t3
	F4  [1]*wkOA40t4
	F5  [1]*wkOA40t5
	F6  [1]*wkOA40t6
	F7  [1]*wkOA40t7
	F8  [1]*wkOA40t8
	F9  [1]*wkOA40t9
	F10 [1]*wkOA40t10
	F11 [1]*wkOA40t11
	F12 [1]*wkOA40t12
	F13 [1]*wkOA40t13
	F14 [1]*wkOA40t14
	F15 [1]*wkOA40t15
	F16 [1]*wkOA40t16
	F17 [1]*wkOA40t17
	F18 [1]*wkOA40t18
	F19 [1]*wkOA40t19
	F20 [1]*wkOA40t20
	F21 [1]*wkOA40t21
	F22 [1]*wkOA40t22
	F23 [1]*wkOA40t23
	F24 [1]*wkOA40t24
	F25 [1]*wkOA40t25
	F26 [1]*wkOA40t26
	F27 [1]*wkOA40t27
	F28 [1]*wkOA40t28
	F29 [1]*wkOA40t29
	F30 [1]*wkOA40t30
	F31 [1]*wkOA40t31
	F32 [1]*wkOA40t32
	F33 [1]*wkOA40t33
	F34 [1]*wkOA40t34
	F35 [1]*wkOA40t35
	F36 [1]*wkOA40t36
	F37 [1]*wkOA40t37
	F38 [1]*wkOA40t38
	F39 [1]*wkOA40t39
}
type wkOA40t3 struct {
	F4  [1]*wkOA40t4
	F5  [1]*wkOA40t5
	F6  [1]*wkOA40t6
	F7  [1]*wkOA40t7
	F8  [1]*wkOA40t8
	F9  [1]*wkOA40t9
	F10 [1]*wkOA40t10
	F11 [1]*wkOA40t11
	F12 [1]*wkOA40t12
	F13 [1]*wkOA40t13
	F14 [1]*wkOA40t14
	F15 [1]*wkOA40t15
	F16 [1]*wkOA40t16
	F17 [1]*wkOA40t17
	F18 [1]*wkOA40t18
	F19 [1]*wkOA40t19
	F20 [1]*wkOA40t20
	F21 [1]*wkOA40t21
	F22 [1]*wkOA40t22
	F23 [1]*wkOA40t23
	F24 [1]*wkOA40t24
	F25 [1]*wkOA40t25
	F26 [1]*wkOA40t26
	F27 [1]*wkOA40t27
	F28 [1]*wkOA40t28
	F29 [1]*wkOA40t29
	F30 [1]*wkOA40t30
	F31 [1]*wkOA40t31
	F32 [1]*wkOA40t32
	F33 [1]*wkOA40t33
	F34 [1]*wkOA40t34
	F35 [1]*wkOA40t35
	F36 [1]*wkOA40t36
	F37 [1]*wkOA40t37
	F38 [1]*wkOA40t38
	F39 [1]*wkOA40t39
}
type wkOA40t4 struct {
	F5  [1]*wkOA40t5
	F6  [1]*wkOA40t6
	F7  [1]*wkOA40t7
	F8  [1]*wkOA40t8
	F9  [1]*wkOA40t9
	F10 [1]*wkOA40t10
	F11 [1]*wkOA40t11
	F12 [1]*wkOA40t12
	F13 [1]*wkOA40t13
	F14 [1]*wkOA40t14
	F15 [1]*wkOA40t15
	F16 [1]*wkOA40t16
	F17 [1]*wkOA40t17
	F18 [1]*wkOA40t18
	F19 [1]*wkOA40t19
	F20 [1]*wkOA40t20
	F21 [1]*wkOA40t21
	F22 [1]*wkOA40t22
	F23 [1]*wkOA40t23
	F24 [1]*wkOA40t24
	F25 [1]*wkOA40t25
	F26 [1]*wkOA40t26
	F27 [1]*wkOA40t27
	F28 [1]*wkOA40t28
	F29 [1]*wkOA40t29
	F30 [1]*wkOA40t30
	F31 [1]*wkOA40t31
	F32 [1]*wkOA40t32
	F33 [1]*wkOA40t33
	F34 [1]*wkOA40t34
	F35 [1]*wkOA40t35
	F36 [1]*wkOA40t36
	F37 [1]*wkOA40t37
	F38 [1]*wkOA40t38
	F39 [1]*wkOA40t39
}
type wkOA40t5 struct {
	F6  [1]*wkOA40t6
	F7  [1]*wkOA40t7
	F8  [1]*wkOA40t8
	F9  [1]*wkOA40t9
	F10 [1]*wkOA40t10
	F11 [1]*wkOA40t11
	F12 [1]*wkOA40t12
	F13 [1]*wkOA40t13
	F14 [1]*wkOA40t14
	F15 [1]*wkOA40t15
	F16 [1]*wkOA40t16
	F17 [1]*wkOA40t17
	F18 [1]*wkOA40t18
	F19 [1]*wkOA40t19
	F20 [1]*wkOA40t20
	F21 [1]*wkOA40t21
	F22 [1]*wkOA40t22
	F23 [1]*wkOA40t23
	F24 [1]*wkOA40t24
	F25 [1]*wkOA40t25
	F26 [1]*wkOA40t26
	F27 [1]*wkOA40t27
	F28 [1]*wkOA40t28
	F29 [1]*wkOA40t29
	F30 [1]*wkOA40t30
	F31 [1]*wkOA40t31
	F32 [1]*wkOA40t32
	F33 [1]*wkOA40t33
	F34 [1]*wkOA40t34
	F35 [1]*wkOA40t35
	F36 [1]*wkOA40t36
	F37 [1]*wkOA40t37
	F38 [1]*wkOA40t38
	F39 [1]*wkOA40t39
}
type wkOA40t6 struct {
	F7  [1]*wkOA40t7
	F8  [1]*wkOA40t8
	F9  [1]*wkOA40t9
	F10 [1]*wkOA40t10
	F11 [1]*wkOA40t11
	F12 [1]*wkOA40t12
	F13 [1]*wkOA40t13
	F14 [1]*wkOA40t14
	F15 [1]*wkOA40t15
	F16 [1]*wkOA40t16
	F17 [1]*wkOA40t17
	F18 [1]*wkOA40t18
	F19 [1]*wkOA40t19
	F20 [1]*wkOA40t20
	F21 [1]*wkOA40t21
	F22 [1]*wkOA40t22
	F23 [1]*wkOA40t23
	F24 [1]*wkOA40t24
	F25 [1]*wkOA40t25
	F26 [1]*wkOA40t26
	F27 [1]*wkOA40t27
	F28 [1]*wkOA40t28
	F29 [1]*wkOA40t29
	F30 [1]*wkOA40t30
	F31 [1]*wkOA40t31
	F32 [1]*wkOA40t32
	F33 [1]*wkOA40t33
	F34 [1]*wkOA40t34
	F35 [1]*wkOA40t35
	F36 [1]*wkOA40t36
	F37 [1]*wkOA40t37
	F38 [1]*wkOA40t38
	F39 [1]*wkOA40t39
}
type wkOA40t7 struct {
	F8  [1]*wkOA40t8
	F9  [1]*wkOA40t9
	F10 [1]*wkOA40t10
	F11 [1]*wkOA40t11
	F12 [1]*wkOA40t12
	F13 [1]*wkOA40t13
	F14 [1]*wkOA40t14
	F15 [1]*wkOA40t15
	F16 [1]*wkOA40t16
	F17 [1]*wkOA40t17
	F18 [1]*wkOA40t18
	F19 [1]*wkOA40t19
	F20 [1]*wkOA40t20
	F21 [1]*wkOA40t21
	F22 [1]*wkOA40t22
	F23 [1]*wkOA40t23
	F24 [1]*wkOA40t24
	F25 [1]*wkOA40t25
	F26 [1]*wkOA40t26
	F27 [1]*wkOA40t27
	F28 [1]*wkOA40t28
	F29 [1]*wkOA40t29
	F30 [1]*wkOA40t30
	F31 [1]*wkOA40t31
	F32 [1]*wkOA40t32
	F33 [1]*wkOA40t33
	F34 [1]*wkOA40t34
	F35 [1]*wkOA40t35
	F36 [1]*wkOA40t36
	F37 [1]*wkOA40t37
	F38 [1]*wkOA40t38
	F39 [1]*wkOA40t39
}
type wkOA40t8 struct {
	F9  [1]*wkOA40t9
	F10 [1]*wkOA40t10
	F11 [1]*wkOA40t11
	F12 [1]*wkOA40t12
	F13 [1]*wkOA40t13
	F14 [1]*wkOA40t14
	F15 [1]*wkOA40t15
	F16 [1]*wkOA40t16
	F17 [1]*wkOA40t17
	F18 [1]*wkOA40t18
	F19 [1]*wkOA40t19
	F20 [1]*wkOA40t20
	F21 [1]*wkOA40t21
	F22 [1]*wkOA40t22
	F23 [1]*wkOA40t23
	F24 [1]*wkOA40t24
	F25 [1]*wkOA40t25
	F26 [1]*wkOA40t26
	F27 [1]*wkOA40t27
	F28 [1]*wkOA40t28
	F29 [1]*wkOA40t29
	F30 [1]*wkOA40t30
	F31 [1]*wkOA40t31
	F32 [1]*wkOA40t32
	F33 [1]*wkOA40t33
	F34 [1]*wkOA40t34
	F35 [1]*wkOA40t35
	F36 [1]*wkOA40t36
	F37 [1]*wkOA40t37
	F38 [1]*wkOA40t38
	F39 [1]*wkOA40t39
}
type wkOA40t9 struct {
	F10 [1]*wkOA40t10
	F11 [1]*wkOA40t11
	F12 [1]*wkOA40t12
	F13 [1]*wkOA40t13
	F14 [1]*wkOA40t14
	F15 [1]*wkOA40t15
	F16 [1]*wkOA40t16
	F17 [1]*wkOA40t17
	F18 [1]*wkOA40t18
	F19 [1]*wkOA40t19
	F20 [1]*wkOA40t20
	F21 [1]*wkOA40t21
	F22 [1]*wkOA40t22
	F23 [1]*wkOA40t23
	F24 [1]*wkOA40t24
	F25 [1]*wkOA40t25
	F26 [1]*wkOA40t26
	F27 [1]*wkOA40t27
	F28 [1]*wkOA40t28
	F29 [1]*wkOA40t29
	F30 [1]*wkOA40t30
	F31 [1]*wkOA40t31
	F32 [1]*wkOA40t32
	F33 [1]*wkOA40t33
	F34 [1]*wkOA40t34
	F35 [1]*wkOA40t35
	F36 [1]*wkOA40t36
	F37 [1]*wkOA40t37
	F38 [1]*wkOA40t38
	F39 [1]*wkOA40t39
}
type wkOA40t10 struct {
	F11 [1]*wkOA40t11
	F12 [1]*wkOA40t12
	F13 [1]*wkOA40t13
	F14 [1]*wkOA40t14
	F15 [1]*wkOA40t15
	F16 [1]*wkOA40t16
	F17 [1]*wkOA40t17
	F18 [1]*wkOA40t18
	F19 [1]*wkOA40t19
	F20 [1]*wkOA40t20
	F21 [1]*wkOA40t21
	F22 [1]*wkOA40t22
	F23 [1]*wkOA40t23
	F24 [1]*wkOA40t24
	F25 [1]*wkOA40t25
	F26 [1]*wkOA40t26
	F27 [1]*wkOA40t27
	F28 [1]*wkOA40t28
	F29 [1]*wkOA40t29
	F30 [1]*wkOA40t30
	F31 [1]*wkOA40t31
	F32 [1]*wkOA40t32
	F33 [1]*wkOA40t33
	F34 [1]*wkOA40t34
	F35 [1]*wkOA40t35
	F36 [1]*wkOA40t36
	F37 [1]*wkOA40t37
	F38 [1]*wkOA40t38
	F39 [1]*wkOA40t39
}
type wkOA40t11 struct {
	F12 [1]*wkOA40t12
	F13 [1]*wkOA40t13
	F14 [1]*wkOA40t14
	F15 [1]*wkOA40t15
	F16 [1]*wkOA40t16
	F17 [1]*wkOA40t17
	F18 [1]*wkOA40t18
	F19 [1]*wkOA40t19
	F20 [1]*wkOA40t20
	F21 [1]*wkOA40t21
	F22 [1]*wkOA40t22
	F23 [1]*wkOA40t23
	F24 [1]*wkOA40t24
	F25 [1]*wkOA40t25
	F26 [1]*wkOA40t26
	F27 [1]*wkOA40t27
	F28 [1]*wkOA40t28
	F29 [1]*wkOA40t29
	F30 [1]*wkOA40t30
	F31 [1]*wkOA40t31
	F32 [1]*wkOA40t32
	F33 [1]*wkOA40t33
	F34 [1]*wkOA40t34
	F35 [1]*wkOA40t35
	F36 [1]*wkOA40t36
	F37 [1]*wkOA40t37
	F38 [1]*wkOA40t38
	F39 [1]*wkOA40t39
}
type wkOA40t12 struct {
	F13 [1]*wkOA40t13
	F14 [1]*wkOA40t14
	F15 [1]*wkOA40t15
	F16 [1]*wkOA40t16
	F17 [1]*wkOA40t17
	F18 [1]*wkOA40t18
	F19 [1]*wkOA40t19
	F20 [1]*wkOA40t20
	F21 [1]*wkOA40t21
	F22 [1]*wkOA40t22
	F23 [1]*wkOA40t23
	F24 [1]*wkOA40t24
	F25 [1]*wkOA40t25
	F26 [1]*wkOA40t26
	F27 [1]*wkOA40t27
	F28 [1]*wkOA40t28
	F29 [1]*wkOA40t29
	F30 [1]*wkOA40t30
	F31 [1]*wkOA40t31
	F32 [1]*wkOA40t32
	F33 [1]*wkOA40t33
	F34 [1]*wkOA40t34
	F35 [1]*wkOA40t35
	F36 [1]*wkOA40t36
	F37 [1]*wkOA40t37
	F38 [1]*wkOA40t38
	F39 [1]*wkOA40t39
}
type wkOA40t13 struct {
	F14 [1]*wkOA40t14
	F15 [1]*wkOA40t15
	F16 [1]*wkOA40t16
	F17 [1]*wkOA40t17
	F18 [1]*wkOA40t18
	F19 [1]*wkOA40t19
	F20 [1]*wkOA40t20
	F21 [1]*wkOA40t21
	F22 [1]*wkOA40t22
	F23 [1]*wkOA40t23
	F24 [1]*wkOA40t24
	F25 [1]*wkOA40t25
	F26 [1]*wkOA40t26
	F27 [1]*wkOA40t27
	F28 [1]*wkOA40t28
	F29 [1]*wkOA40t29
	F30 [1]*wkOA40t30
	F31 [1]*wkOA40t31
	F32 [1]*wkOA40t32
	F33 [1]*wkOA40t33
	F34 [1]*wkOA40t34
	F35 [1]*wkOA40t35
	F36 [1]*wkOA40t36
	F37 [1]*wkOA40t37
	F38 [1]*wkOA40t38
	F39 [1]*wkOA40t39
}
type wkOA40t14 struct {
	F15 [1]*wkOA40t15
	F16 [1]*wkOA40t16
	F17 [1]*wkOA40t17
	F18 [1]*wkOA40t18
	F19 [1]*wkOA40t19
	F20 [1]*wkOA40t20
	F21 [1]*wkOA40t21
	F22 [1]*wkOA40t22
	F23 [1]*wkOA40t23
	F24 [1]*wkOA40t24
	F25 [1]*wkOA40t25
	F26 [1]*wkOA40t26
	F27 [1]*wkOA40t27
	F28 [1]*wkOA40t28
	F29 [1]*wkOA40t29
	F30 [1]*wkOA40t30
	F31 [1]*wkOA40t31
	F32 [1]*wkOA40t32
	F33 [1]*wkOA40t33
	F34 [1]*wkOA40t34
	F35 [1]*wkOA40t35
	F36 [1]*wkOA40t36
	F37 [1]*wkOA40t37
	F38 [1]*wkOA40t38
	F39 [1]*wkOA40t39
}
type wkOA40t15 struct {
	F16 [1]*wkOA40t16
	F17 [1]*wkOA40t17
	F18 [1]*wkOA40t18
	F19 [1]*wkOA40t19
	F20 [1]*wkOA40t20
	F21 [1]*wkOA40t21
	F22 [1]*wkOA40t22
	F23 [1]*wkOA40t23
	F24 [1]*wkOA40t24
	F25 [1]*wkOA40t25
	F26 [1]*wkOA40t26
	F27 [1]*wkOA40t27
	F28 [1]*wkOA40t28
	F29 [1]*wkOA40t29
	F30 [1]*wkOA40t30
	F31 [1]*wkOA40t31
	F32 [1]*wkOA40t32
	F33 [1]*wkOA40t33
	F34 [1]*wkOA40t34
	F35 [1]*wkOA40t35
	F36 [1]*wkOA40t36
	F37 [1]*wkOA40t37
	F38 [1]*wkOA40t38
	F39 [1]*wkOA40t39
}
type wkOA40t16 struct {
	F17 [1]*wkOA40t17
	F18 [1]*wkOA40t18
	F19 [1]*wkOA40t19
	F20 [1]*wkOA40t20
	F21 [1]*wkOA40t21
	F22 [1]*wkOA40t22
	F23 [1]*wkOA40t23
	F24 [1]*wkOA40t24
	F25 [1]*wkOA40t25
	F26 [1]*wkOA40t26
	F27 [1]*wkOA40t27
	F28 [1]*wkOA40t28
	F29 [1]*wkOA40t29
	F30 [1]*wkOA40t30
	F31 [1]*wkOA40t31
	F32 [1]*wkOA40t32
	F33 [1]*wkOA40t33
	F34 [1]*wkOA40t34
	F35 [1]*wkOA40t35
	F36 [1]*wkOA40t36
	F37 [1]*wkOA40t37
	F38 [1]*wkOA40t38
	F39 [1]*wkOA40t39
}
type wkOA40t17 struct {
	F18 [1]*wkOA40t18
	F19 [1]*wkOA40t19
	F20 [1]*wkOA40t20
	F21 [1]*wkOA40t21
	F22 [1]*wkOA40t22
	F23 [1]*wkOA40t23
	F24 [1]*wkOA40t24
	F25 [1]*wkOA40t25
	F26 [1]*wkOA40t26
	F27 [1]*wkOA40t27
	F28 [1]*wkOA40t28
	F29 [1]*wkOA40t29
	F30 [1]*wkOA40t30
	F31 [1]*wkOA40t31
	F32 [1]*wkOA40t32
	F33 [1]*wkOA40t33
	F34 [1]*wkOA40t34
	F35 [1]*wkOA40t35
	F36 [1]*wkOA40t36
	F37 [1]*wkOA40t37
	F38 [1]*wkOA40t38
	F39 [1]*wkOA40t39
}
type wkOA40t18 struct {
	F19 [1]*wkOA40t19
	F20 [1]*wkOA40t20
	F21 [1]*wkOA40t21
	F22 [1]*wkOA40t22
	F23 [1]*wkOA40t23
	F24 [1]*wkOA40t24
	F25 [1]*wkOA40t25
	F26 [1]*wkOA40t26
	F27 [1]*wkOA40t27
	F28 [1]*wkOA40t28
	F29 [1]*wkOA40t29
	F30 [1]*wkOA40t30
	F31 [1]*wkOA40t31
	F32 [1]*wkOA40t32
	F33 [1]*wkOA40t33
	F34 [1]*wkOA40t34
	F35 [1]*wkOA40t35
	F36 [1]*wkOA40t36
	F37 [1]*wkOA40t37
	F38 [1]*wkOA40t38
	F39 [1]*wkOA40t39
}
type wkOA40t19 struct {
	F20 [1]*wkOA40t20
	F21 [1]*wkOA40t21
	F22 [1]*wkOA40t22
	F23 [1]*wkOA40t23
	F24 [1]*wkOA40t24
	F25 [1]*wkOA40t25
	F26 [1]*wkOA40t26
	F27 [1]*wkOA40t27
	F28 [1]*wkOA40t28
	F29 [1]*wkOA40t29
	F30 [1]*wkOA40t30
	F31 [1]*wkOA40t31
	F32 [1]*wkOA40t32
	F33 [1]*wkOA40t33
	F34 [1]*wkOA40t34
	F35 [1]*wkOA40t35
	F36 [1]*wkOA40t36
	F37 [1]*wkOA40t37
	F38 [1]*wkOA40t38
	F39 [1]*wkOA40t39
}
type wkOA40t20 struct {
	F21 [1]*wkOA40t21
	F22 [1]*wkOA40t22
	F23 [1]*wkOA40t23
	F24 [1]*wkOA40t24
	F25 [1]*wkOA40t25
	F26 [1]*wkOA40t26
	F27 [1]*wkOA40t27
	F28 [1]*wkOA40t28
	F29 [1]*wkOA40t29
	F30 [1]*wkOA40t30
	F31 [1]*wkOA40t31
	F32 [1]*wkOA40t32
	F33 [1]*wkOA40t33
	F34 [1]*wkOA40t34
	F35 [1]*wkOA40t35
	F36 [1]*wkOA40t36
	F37 [1]*wkOA40t37
	F38 [1]*wkOA40t38
	F39 [1]*wkOA40t39
}
type wkOA40t21 struct {
	F22 [1]*wkOA40t22
	F23 [1]*wkOA40t23
	F24 [1]*wkOA40t24
	F25 [1]*wkOA40t25
	F26 [1]*wkOA40t26
	F27 [1]*wkOA40t27
	F28 [1]*wkOA40t28
	F29 [1]*wkOA40t29
	F30 [1]*wkOA40t30
	F31 [1]*wkOA40t31
	F32 [1]*wkOA40t32
	F33 [1]*wkOA40t33
	F34 [1]*wkOA40t34
	F35 [1]*wkOA40t35
	F36 [1]*wkOA40t36
	F37 [1]*wkOA40t37
	F38 [1]*wkOA40t38
	F39 [1]*wkOA40t39
}
type wkOA40t22 struct {
	F23 [1]*wkOA40t23
	F24 [1]*wkOA40t24
	F25 [1]*wkOA40t25
	F26 [1]*wkOA40t26
	F27 [1]*wkOA40t27
	F28 [1]*wkOA40t28
	F29 [1]*wkOA40t29
	F30 [1]*wkOA40t30
	F31 [1]*wkOA40t31
	F32 [1]*wkOA40t32
	F33 [1]*wkOA40t33
	F34 [1]*wkOA40t34
	F35 [1]*wkOA40t35
	F36 [1]*wkOA40t36
	F37 [1]*wkOA40t37
	F38 [1]*wkOA40t38
	F39 [1]*wkOA40t39
}
type wkOA40t23 struct {
	F24 [1]*wkOA40t24
	F25 [1]*wkOA40t25
	F26 [1]*wkOA40t26
	F27 [1]*wkOA40t27
	F28 [1]*wkOA40t28
	F29 [1]*wkOA40t29
	F30 [1]*wkOA40t30
	F31 [1]*wkOA40t31
	F32 [1]*wkOA40t32
	F33 [1]*wkOA40t33
	F34 [1]*wkOA40t34
	F35 [1]*wkOA40t35
	F36 [1]*wkOA40t36
	F37 [1]*wkOA40t37
	F38 [1]*wkOA40t38
	F39 [1]*wkOA40t39
}
type wkOA40t24 struct {
	F25 [1]*wkOA40t25
	F26 [1]*wkOA40t26
	F27 [1]*wkOA40t27
	F28 [1]*wkOA40t28
	F29 [1]*wkOA40t29
	F30 [1]*wkOA40t30
	F31 [1]*wkOA40t31
	F32 [1]*wkOA40t32
	F33 [1]*wkOA40t33
	F34 [1]*wkOA40t34
	F35 [1]*wkOA40t35
	F36 [1]*wkOA40t36
	F37 [1]*wkOA40t37
	F38 [1]*wkOA40t38
	F39 [1]*wkOA40t39
}
type wkOA40t25 struct {
	F26 [1]*wkOA40t26
	F27 [1]*wkOA40t27
	F28 [1]*wkOA40t28
	F29 [1]*wkOA40t29
	F30 [1]*wkOA40t30
	F31 [1]*wkOA40t31
	F32 [1]*wkOA40t32
	F33 [1]*wkOA40t33
	F34 [1]*wkOA40t34
	F35 [1]*wkOA40t35
	F36 [1]*wkOA40t36
	F37 [1]*wkOA40t37
	F38 [1]*wkOA40t38
	F39 [1]*wkOA40t39
}
type wkOA40t26 struct {
	F27 [1]*wkOA40t27
	F28 [1]*wkOA40t28
	F29 [1]*wkOA40t29
	F30 [1]*wkOA40t30
	F31 [1]*wkOA40t31
	F32 [1]*wkOA40t32
	F33 [1]*wkOA40t33
	F34 [1]*wkOA40t34
	F35 [1]*wkOA40t35
	F36 [1]*wkOA40t36
	F37 [1]*wkOA40t37
	F38 [1]*wkOA40t38
	F39 [1]*wkOA40t39
}
type wkOA40t27 struct {
	F28 [1]*wkOA40t28
	F29 [1]*wkOA40t29
	F30 [1]*wkOA40t30
	F31 [1]*wkOA40t31
	F32 [1]*wkOA40t32
	F33 [1]*wkOA40t33
	F34 [1]*wkOA40t34
	F35 [1]*wkOA40t35
	F36 [1]*wkOA40t36
	F37 [1]*wkOA40t37
	F38 [1]*wkOA40t38
	F39 [1]*wkOA40t39
}
type wkOA40t28 struct {
	F29 [1]*wkOA40t29
	F30 [1]*wkOA40t30
	F31 [1]*wkOA40t31
	F32 [1]*wkOA40t32
	F33 [1]*wkOA40t33
	F34 [1]*wkOA40t34
	F35 [1]*wkOA40t35
	F36 [1]*wkOA40t36
	F37 [1]*wkOA40t37
	F38 [1]*wkOA40t38
	F39 [1]*wkOA40t39
}
type wkOA40t29 struct {
	F30 [1]*wkOA40t30
	F31 [1]*wkOA40t31
	F32 [1]*wkOA40t32
	F33 [1]*wkOA40t33
	F34 [1]*wkOA40t34
	F35 [1]*wkOA40t35
	F36 [1]*wkOA40t36
	F37 [1]*wkOA40t37
	F38 [1]*wkOA40t38
	F39 [1]*wkOA40t39
}
type wkOA40t30 struct {
	F31 [1]*wkOA40t31
	F32 [1]*wkOA40t32
	F33 [1]*wkOA40t33
	F34 [1]*wkOA40t34
	F35 [1]*wkOA40t35
	F36 [1]*wkOA40t36
	F37 [1]*wkOA40t37
	F38 [1]*wkOA40t38
	F39 [1]*wkOA40t39
}
type wkOA40t31 struct {
	F32 [1]*wkOA40t32
	F33 [1]*wkOA40t33
	F34 [1]*wkOA40t34
	F35 [1]*wkOA40t35
	F36 [1]*wkOA40t36
	F37 [1]*wkOA40t37
	F38 [1]*wkOA40t38
	F39 [1]*wkOA40t39
}
type wkOA40t32 struct {
	F33 [1]*wkOA40t33
	F34 [1]*wkOA40t34
	F35 [1]*wkOA40t35
	F36 [1]*wkOA40t36
	F37 [1]*wkOA40t37
	F38 [1]*wkOA40t38
	F39 [1]*wkOA40t39
}
type wkOA40t33 struct {
	F34 [1]*wkOA40t34
	F35 [1]*wkOA40t35
	F36 [1]*wkOA40t36
	F37 [1]*wkOA40t37
	F38 [1]*wkOA40t38
	F39 [1]*wkOA40t39
}
type wkOA40t34 struct {
	F35 [1]*wkOA40t35
	F36 [1]*wkOA40t36
	F37 [1]*wkOA40t37
	F38 [1]*wkOA40t38
	F39 [1]*wkOA40t39
}
type wkOA40t35 struct {
	F36 [1]*wkOA40t36
	F37 [1]*wkOA40t37
	F38 [1]*wkOA40t38
	F39 [1]*wkOA40t39
}
type wkOA40t36 struct {
	F37 [1]*wkOA40t37
	F38 [1]*wkOA40t38
	F39 [1]*wkOA40t39
}
type wkOA40t37 struct {
	F38 [1]*wkOA40t38
	F39 [1]*wkOA40t39
}
type wkOA40t38 struct{ F39 [1]*wkOA40t39 }
type wkOA40t39 struct{ F0 [1]*wkOA40t0 }
type wkCQ2t0 struct {
	F0 *[]map[int]wkCQ2t0
	F1 *[]map[int]wkCQ2t1
}
type wkCQ2t1 struct {
	F0 *[]map[int]wkCQ2t0
	F1 *[]map[int]wkCQ2t1
}
type wkCQ4t0 struct {
	F0 *[]map[int]wkCQ4t0
	F1 *[]map[int]wkCQ4t1
	F2 *[]map[int]wkCQ4t2
	F3 *[]map[int]wkCQ4t3
}
type wkCQ4t1 struct {
	F0 *[]map[int]wkCQ4t0
	F1 *[]map[int]wkCQ4t1
	F2 *[]map[int]wkCQ4t2
	F3 *[]map[int]wkCQ4t3
}
type wkCQ4t2 struct {
	F0 *[]map[int]wkCQ4t0
	F1 *[]map[int]wkCQ4t1
	F2 *[]map[int]wkCQ4t2
	F3 *[]map[int]wkCQ4t3
}
type wkCQ4t3 struct {
	F0 *[]map[int]wkCQ4t0
	F1 *[]map[int]wkCQ4t1
	F2 *[]map[int]wkCQ4t2
	F3 *[]map[int]wkCQ4t3
}
type wkCQ6t0 struct {
	F0 *[]map[int]wkCQ6t0
	F1 *[]map[int]wkCQ6t1
	F2 *[]map[int]wkCQ6t2
	F3 *[]map[int]wkCQ6t3
	F4 *[]map[int]wkCQ6t4
	F5 *[]map[int]wkCQ6t5
}
type wkCQ6t1 struct {
	F0 *[]map[int]wkCQ6t0
	F1 *[]map[int]wkCQ6t1
	F2 *[]map[int]wkCQ6t2
	F3 *[]map[int]wkCQ6t3
	F4 *[]map[int]wkCQ6t4
	F5 *[]map[int]wkCQ6t5
}
type wkCQ6t2 struct {
	F0 *[]map[int]wkCQ6t0
	F1 *[]map[int]wkCQ6t1
	F2 *[]map[int]wkCQ6t2
	F3 *[]map[int]wkCQ6t3
	F4 *[]map[int]wkCQ6t4
	F5 *[]map[int]wkCQ6t5
}
type wkCQ6t3 struct {
	F0 *[]map[int]wkCQ6t0
	F1 *[]map[int]wkCQ6t1
	F2 *[]map[int]wkCQ6t2
	F3 *[]map[int]wkCQ6t3
	F4 *[]map[int]wkCQ6t4
	F5 *[]map[int]wkCQ6t5
}
type wkCQ6t4 struct {
	F0 *[]map[int]wkCQ6t0
	F1 *[]map[int]wkCQ6t1
	F2 *[]map[int]wkCQ6t2
	F3 *[]map[int]wkCQ6t3
	F4 *[]map[int]wkCQ6t4
	F5 *[]map[int]wkCQ6t5
}
type wkCQ6t5 struct {
	F0 *[]map[int]wkCQ6t0
	F1 *[]map[int]wkCQ6t1
	F2 *[]map[int]wkCQ6t2
	F3 *[]map[int]wkCQ6t3
	F4 *[]map[int]wkCQ6t4
	F5 *[]map[int]wkCQ6t5
}
type wkCQ8t0 struct {
	F0 *[]map[int]wkCQ8t0
	F1 *[]map[int]wkCQ8t1
	F2 *[]map[int]wkCQ8t2
	F3 *[]map[int]wkCQ8t3
	F4 *[]map[int]wkCQ8t4
	F5 *[]map[int]wkCQ8t5
	F6 *[]map[int]wkCQ8t6
	F7 *[]map[int]wkCQ8t7
}
type wkCQ8t1 struct {
	F0 *[]map[int]wkCQ8t0
	F1 *[]map[int]wkCQ8t1
	F2 *[]map[int]wkCQ8t2
	F3 *[]map[int]wkCQ8t3
	F4 *[]map[int]wkCQ8t4
	F5 *[]map[int]wkCQ8t5
	F6 *[]map[int]wkCQ8t6
	F7 *[]map[int]wkCQ8t7
}
type wkCQ8t2 struct {
	F0 *[]map[int]wkCQ8t0
	F1 *[]map[int]wkCQ8t1
	F2 *[]map[int]wkCQ8t2
	F3 *[]map[int]wkCQ8t3
	F4 *[]map[int]wkCQ8t4
	F5 *[]map[int]wkCQ8t5
	F6 *[]map[int]wkCQ8t6
	F7 *[]map[int]wkCQ8t7
}
type wkCQ8t3 struct {
	F0 *[]map[int]wkCQ8t0
	F1 *[]map[int]wkCQ8t1
	F2 *[]map[int]wkCQ8t2
	F3 *[]map[int]wkCQ8t3
	F4 *[]map[int]wkCQ8t4
	F5 *[]map[int]wkCQ8t5
	F6 *[]map[int]wkCQ8t6
	F7 *[]map[int]wkCQ8t7
}
type wkCQ8t4 struct {
	F0 *[]map[int]wkCQ8t0
	F1 *[]map[int]wkCQ8t1
	F2 *[]map[int]wkCQ8t2
	F3 *[]map[int]wkCQ8t3
	F4 *[]map[int]wkCQ8t4
	F5 *[]map[int]wkCQ8t5
	F6 *[]map[int]wkCQ8t6
	F7 *[]map[int]wkCQ8t7
}
type wkCQ8t5 struct {
	F0 *[]map[int]wkCQ8t0
	F1 *[]map[int]wkCQ8t1
	F2 *[]map[int]wkCQ8t2
	F3 *[]map[int]wkCQ8t3
	F4 *[]map[int]wkCQ8t4
	F5 *[]map[int]wkCQ8t5
	F6 *[]map[int]wkCQ8t6
	F7 *[]map[int]wkCQ8t7
}
type wkCQ8t6 struct {
	F0 *[]map[int]wkCQ8t0
	F1 *[]map[int]wkCQ8t1
	F2 *[]map[int]wkCQ8t2
	F3 *[]map[int]wkCQ8t3
	F4 *[]map[int]wkCQ8t4
	F5 *[]map[int]wkCQ8t5
	F6 *[]map[int]wkCQ8t6
	F7 *[]map[int]wkCQ8t7
}
type wkCQ8t7 struct {
	F0 *[]map[int]wkCQ8t0
	F1 *[]map[int]wkCQ8t1
	F2 *[]map[int]wkCQ8t2
	F3 *[]map[int]wkCQ8t3
	F4 *[]map[int]wkCQ8t4
	F5 *[]map[int]wkCQ8t5
	F6 *[]map[int]wkCQ8t6
	F7 *[]map[int]wkCQ8t7
}
type wkCQ9t0 struct {
	F0 *[]map[int]wkCQ9t0
	F1 *[]map[int]wkCQ9t1
	F2 *[]map[int]wkCQ9t2
	F3 *[]map[int]wkCQ9t3
	F4 *[]map[int]wkCQ9t4
	F5 *[]map[int]wkCQ9t5
	F6 *[]map[int]wkCQ9t6
	F7 *[]map[int]wkCQ9t7
	F8 *[]map[int]wkCQ9t8
}
type wkCQ9t1 struct {
	F0 *[]map[int]wkCQ9t0
	F1 *[]map[int]wkCQ9t1
	F2 *[]map[int]wkCQ9t2
	F3 *[]map[int]wkCQ9t3
	F4 *[]map[int]wkCQ9t4
	F5 *[]map[int]wkCQ9t5
	F6 *[]map[int]wkCQ9t6
	F7 *[]map[int]wkCQ9t7
	F8 *[]map[int]wkCQ9t8
}
type wkCQ9t2 struct {
	F0 *[]map[int]wkCQ9t0
	F1 *[]map[int]wkCQ9t1
	F2 *[]map[int]wkCQ9t2
	F3 *[]map[int]wkCQ9t3
	F4 *[]map[int]wkCQ9t4
	F5 *[]map[int]wkCQ9t5
	F6 *[]map[int]wkCQ9t6
	F7 *[]map[int]wkCQ9t7
	F8 *[]map[int]wkCQ9t8
}
type wkCQ9t3 struct {
	F0 *[]map[int]wkCQ9t0
	F1 *[]map[int]wkCQ9t1
	F2 *[]map[int]wkCQ9t2
	F3 *[]map[int]wkCQ9t3
	F4 *[]map[int]wkCQ9t4
	F5 *[]map[int]wkCQ9t5
	F6 *[]map[int]wkCQ9t6
	F7 *[]map[int]wkCQ9t7
	F8 *[]map[int]wkCQ9t8
}
type wkCQ9t4 struct {
	F0 *[]map[int]wkCQ9t0
	F1 *[]map[int]wkCQ9t1
	F2 *[]map[int]wkCQ9t2
	F3 *[]map[int]wkCQ9t3
	F4 *[]map[int]wkCQ9t4
	F5 *[]map[int]wkCQ9t5
	F6 *[]map[int]wkCQ9t6
	F7 *[]map[int]wkCQ9t7
	F8 *[]map[int]wkCQ9t8
}
type wkCQ9t5 struct {
	F0 *[]map[int]wkCQ9t0
	F1 *[]map[int]wkCQ9t1
	F2 *[]map[int]wkCQ9t2
	F3 *[]map[int]wkCQ9t3
	F4 *[]map[int]wkCQ9t4
	F5 *[]map[int]wkCQ9t5
	F6 *[]map[int]wkCQ9t6
	F7 *[]map[int]wkCQ9t7
	F8 *[]map[int]wkCQ9t8
}
type wkCQ9t6 struct {
	F0 *[]map[int]wkCQ9t0
	F1 *[]map[int]wkCQ9t1
	F2 *[]map[int]wkCQ9t2
	F3 *[]map[int]wkCQ9t3
	F4 *[]map[int]wkCQ9t4
	F5 *[]map[int]wkCQ9t5
	F6 *[]map[int]wkCQ9t6
	F7 *[]map[int]wkCQ9t7
	F8 *[]map[int]wkCQ9t8
}
type wkCQ9t7 struct {
	F0 *[]map[int]wkCQ9t0
	F1 *[]map[int]wkCQ9t1
	F2 *[]map[int]wkCQ9t2
	F3 *[]map[int]wkCQ9t3
	F4 *[]map[int]wkCQ9t4
	F5 *[]map[int]wkCQ9t5
	F6 *[]map[int]wkCQ9t6
	F7 *[]map[int]wkCQ9t7
	F8 *[]map[int]wkCQ9t8
}
type wkCQ9t8 struct {
	F0 *[]map[int]wkCQ9t0
	F1 *[]map[int]wkCQ9t1
	F2 *[]map[int]wkCQ9t2
	F3 *[]map[int]wkCQ9t3
	F4 *[]map[int]wkCQ9t4
	F5 *[]map[int]wkCQ9t5
	F6 *[]map[int]wkCQ9t6
	F7 *[]map[int]wkCQ9t7
	F8 *[]map[int]wkCQ9t8
}
type wkCQ10t0 struct {
	F0 *[]map[int]wkCQ10t0
	F1 *[]map[int]wkCQ10t1
	F2 *[]map[int]wkCQ10t2
	F3 *[]map[int]wkCQ10t3
	F4 *[]map[int]wkCQ10t4
	F5 *[]map[int]wkCQ10t5
	F6 *[]map[int]wkCQ10t6
	F7 *[]map[int]wkCQ10t7
	F8 *[]map[int]wkCQ10t8
	F9 *[]map[int]wkCQ10t9
}
type wkCQ10t1 struct {
	F0 *[]map[int]wkCQ10t0
	F1 *[]map[int]wkCQ10t1
	F2 *[]map[int]wkCQ10t2
	F3 *[]map[int]wkCQ10t3
	F4 *[]map[int]wkCQ10t4
	F5 *[]map[int]wkCQ10t5
	F6 *[]map[int]wkCQ10t6
	F7 *[]map[int]wkCQ10t7
	F8 *[]map[int]wkCQ10t8
	F9 *[]map[int]wkCQ10t9
}
type wkCQ10t2 struct {
	F0 *[]map[int]wkCQ10t0
	F1 *[]map[int]wkCQ10t1
	F2 *[]map[int]wkCQ10t2
	F3 *[]map[int]wkCQ10t3
	F4 *[]map[int]wkCQ10t4
	F5 *[]map[int]wkCQ10t5
	F6 *[]map[int]wkCQ10t6
	F7 *[]map[int]wkCQ10t7
	F8 *[]map[int]wkCQ10t8
	F9 *[]map[int]wkCQ10t9
}
type wkCQ10t3 struct {
	F0 *[]map[int]wkCQ10t0
	F1 *[]map[int]wkCQ10t1
	F2 *[]map[int]wkCQ10t2
	F3 *[]map[int]wkCQ10t3
	F4 *[]map[int]wkCQ10t4
	F5 *[]map[int]wkCQ10t5
	F6 *[]map[int]wkCQ10t6
	F7 *[]map[int]wkCQ10t7
	F8 *[]map[int]wkCQ10t8
	F9 *[]map[int]wkCQ10t9
}
type wkCQ10t4 struct {
	F0 *[]map[int]wkCQ10t0
	F1 *[]map[int]wkCQ10t1
	F2 *[]map[int]wkCQ10t2
	F3 *[]map[int]wkCQ10t3
	F4 *[]map[int]wkCQ10t4
	F5 *[]map[int]wkCQ10t5
	F6 *[]map[int]wkCQ10t6
	F7 *[]map[int]wkCQ10t7
	F8 *[]map[int]wkCQ10t8
	F9 *[]map[int]wkCQ10t9
}
type wkCQ10t5 struct {
	F0 *[]map[int]wkCQ10t0
	F1 *[]map[int]wkCQ10t1
	F2 *[]map[int]wkCQ10t2
	F3 *[]map[int]wkCQ10t3
	F4 *[]map[int]wkCQ10t4
	F5 *[]map[int]wkCQ10t5
	F6 *[]map[int]wkCQ10t6
	F7 *[]map[int]wkCQ10t7
	F8 *[]map[int]wkCQ10t8
	F9 *[]map[int]wkCQ10t9
}
type wkCQ10t6 struct {
	F0 *[]map[int]wkCQ10t0
	F1 *[]map[int]wkCQ10t1
	F2 *[]map[int]wkCQ10t2
	F3 *[]map[int]wkCQ10t3
	F4 *[]map[int]wkCQ10t4
	F5 *[]map[int]wkCQ10t5
	F6 *[]map[int]wkCQ10t6
	F7 *[]map[int]wkCQ10t7
	F8 *[]map[int]wkCQ10t8
	F9 *[]map[int]wkCQ10t9
}
type wkCQ10t7 struct {
	F0 *[]map[int]wkCQ10t0
	F1 *[]map[int]wkCQ10t1
	F2 *[]map[int]wkCQ10t2
	F3 *[]map[int]wkCQ10t3
	F4 *[]map[int]wkCQ10t4
	F5 *[]map[int]wkCQ10t5
	F6 *[]map[int]wkCQ10t6
	F7 *[]map[int]wkCQ10t7
	F8 *[]map[int]wkCQ10t8
	F9 *[]map[int]wkCQ10t9
}
type wkCQ10t8 struct {
	F0 *[]map[int]wkCQ10t0
	F1 *[]map[int]wkCQ10t1
	F2 *[]map[int]wkCQ10t2
	F3 *[]map[int]wkCQ10t3
	F4 *[]map[int]wkCQ10t4
	F5 *[]map[int]wkCQ10t5
	F6 *[]map[int]wkCQ10t6
	F7 *[]map[int]wkCQ10t7
	F8 *[]map[int]wkCQ10t8
	F9 *[]map[int]wkCQ10t9
}
type wkCQ10t9 struct {
	F0 *[]map[int]wkCQ10t0
	F1 *[]map[int]wkCQ10t1
	F2 *[]map[int]wkCQ10t2
	F3 *[]map[int]wkCQ10t3
	F4 *[]map[int]wkCQ10t4
	F5 *[]map[int]wkCQ10t5
	F6 *[]map[int]wkCQ10t6
	F7 *[]map[int]wkCQ10t7
	F8 *[]map[int]wkCQ10t8
	F9 *[]map[int]wkCQ10t9
}
type wkCQ11t0 struct {
	F0  *[]map[int]wkCQ11t0
	F1  *[]map[int]wkCQ11t1
	F2  *[]map[int]wkCQ11t2
	F3  *[]map[int]wkCQ11t3
	F4  *[]map[int]wkCQ11t4
	F5  *[]map[int]wkCQ11t5
	F6  *[]map[int]wkCQ11t6
	F7  *[]map[int]wkCQ11t7
	F8  *[]map[int]wkCQ11t8
	F9  *[]map[int]wkCQ11t9
	F10 *[]map[int]wkCQ11t10
}
type wkCQ11t1 struct {
	F0  *[]map[int]wkCQ11t0
	F1  *[]map[int]wkCQ11t1
	F2  *[]map[int]wkCQ11t2
	F3  *[]map[int]wkCQ11t3
	F4  *[]map[int]wkCQ11t4
	F5  *[]map[int]wkCQ11t5
	F6  *[]map[int]wkCQ11t6
	F7  *[]map[int]wkCQ11t7
	F8  *[]map[int]wkCQ11t8
	F9  *[]map[int]wkCQ11t9
	F10 *[]map[int]wkCQ11t10
}
type wkCQ11t2 struct {
	F0  *[]map[int]wkCQ11t0
	F1  *[]map[int]wkCQ11t1
	F2  *[]map[int]wkCQ11t2
	F3  *[]map[int]wkCQ11t3
	F4  *[]map[int]wkCQ11t4
	F5  *[]map[int]wkCQ11t5
	F6  *[]map[int]wkCQ11t6
	F7  *[]map[int]wkCQ11t7
	F8  *[]map[int]wkCQ11t8
	F9  *[]map[int]wkCQ11t9
	F10 *[]map[int]wkCQ11t10
}
type wkCQ11t3 struct {
	F0  *[]map[int]wkCQ11t0
	F1  *[]map[int]wkCQ11t1
	F2  *[]map[int]wkCQ11t2
	F3  *[]map[int]wkCQ11t3
	F4  *[]map[int]wkCQ11t4
	F5  *[]map[int]wkCQ11t5
	F6  *[]map[int]wkCQ11t6
	F7  *[]map[int]wkCQ11t7
	F8  *[]map[int]wkCQ11t8
	F9  *[]map[int]wkCQ11t9
	F10 *[]map[int]wkCQ11t10
}
type wkCQ11t4 struct {
	F0  *[]map[int]wkCQ11t0
	F1  *[]map[int]wkCQ11t1
	F2  *[]map[int]wkCQ11t2
	F3  *[]map[int]wkCQ11t3
	F4  *[]map[int]wkCQ11t4
	F5  *[]map[int]wkCQ11t5
	F6  *[]map[int]wkCQ11t6
	F7  *[]map[int]wkCQ11t7
	F8  *[]map[int]wkCQ11t8
	F9  *[]map[int]wkCQ11t9
	F10 *[]map[int]wkCQ11t10
}
type wkCQ11t5 struct {
	F0  *[]map[int]wkCQ11t0
	F1  *[]map[int]wkCQ11t1
	F2  *[]map[int]wkCQ11t2
	F3  *[]map[int]wkCQ11t3
	F4  *[]map[int]wkCQ11t4
	F5  *[]map[int]wkCQ11t5
	F6  *[]map[int]wkCQ11t6
	F7  *[]map[int]wkCQ11t7
	F8  *[]map[int]wkCQ11t8
	F9  *[]map[int]wkCQ11t9
	F10 *[]map[int]wkCQ11t10
}
type wkCQ11t6 struct {
	F0  *[]map[int]wkCQ11t0
	F1  *[]map[int]wkCQ11t1
	F2  *[]map[int]wkCQ11t2
	F3  *[]map[int]wkCQ11t3
	F4  *[]map[int]wkCQ11t4
	F5  *[]map[int]wkCQ11t5
	F6  *[]map[int]wkCQ11t6
	F7  *[]map[int]wkCQ11t7
	F8  *[]map[int]wkCQ11t8
	F9  *[]map[int]wkCQ11t9
	F10 *[]map[int]wkCQ11t10
}
type wkCQ11t7 struct {
	F0  *[]map[int]wkCQ11t0
	F1  *[]map[int]wkCQ11t1
	F2  *[]map[int]wkCQ11t2
	F3  *[]map[int]wkCQ11t3
	F4  *[]map[int]wkCQ11t4
	F5  *[]map[int]wkCQ11t5
	F6  *[]map[int]wkCQ11t6
	F7  *[]map[int]wkCQ11t7
	F8  *[]map[int]wkCQ11t8
	F9  *[]map[int]wkCQ11t9
	F10 *[]map[int]wkCQ11t10
}
type wkCQ11t8 struct {
	F0  *[]map[int]wkCQ11t0
	F1  *[]map[int]wkCQ11t1
	F2  *[]map[int]wkCQ11t2
	F3  *[]map[int]wkCQ11t3
	F4  *[]map[int]wkCQ11t4
	F5  *[]map[int]wkCQ11t5
	F6  *[]map[int]wkCQ11t6
	F7  *[]map[int]wkCQ11t7
	F8  *[]map[int]wkCQ11t8
	F9  *[]map[int]wkCQ11t9
	F10 *[]map[int]wkCQ11t10
}
type wkCQ11t9 struct {
	F0  *[]map[int]wkCQ11t0
	F1  *[]map[int]wkCQ11t1
	F2  *[]map[int]wkCQ11t2
	F3  *[]map[int]wkCQ11t3
	F4  *[]map[int]wkCQ11t4
	F5  *[]map[int]wkCQ11t5
	F6  *[]map[int]wkCQ11t6
	F7  *[]map[int]wkCQ11t7
	F8  *[]map[int]wkCQ11t8
	F9  *[]map[int]wkCQ11t9
	F10 *[]map[int]wkCQ11t10
}
type wkCQ11t10 struct {
	F0  *[]map[int]wkCQ11t0
	F1  *[]map[int]wkCQ11t1
	F2  *[]map[int]wkCQ11t2
	F3  *[]map[int]wkCQ11t3
	F4  *[]map[int]wkCQ11t4
	F5  *[]map[int]wkCQ11t5
	F6  *[]map[int]wkCQ11t6
	F7  *[]map[int]wkCQ11t7
	F8  *[]map[int]wkCQ11t8
	F9  *[]map[int]wkCQ11t9
	F10 *[]map[int]wkCQ11t10
}
type wkCQ12t0 struct {
	F0  *[]map[int]wkCQ12t0
	F1  *[]map[int]wkCQ12t1
	F2  *[]map[int]wkCQ12t2
	F3  *[]map[int]wkCQ12t3
	F4  *[]map[int]wkCQ12t4
	F5  *[]map[int]wkCQ12t5
	F6  *[]map[int]wkCQ12t6
	F7  *[]map[int]wkCQ12t7
	F8  *[]map[int]wkCQ12t8
	F9  *[]map[int]wkCQ12t9
	F10 *[]map[int]wkCQ12t10
	F11 *[]map[int]wkCQ12t11
}
type wkCQ12t1 struct {
	F0  *[]map[int]wkCQ12t0
	F1  *[]map[int]wkCQ12t1
	F2  *[]map[int]wkCQ12t2
	F3  *[]map[int]wkCQ12t3
	F4  *[]map[int]wkCQ12t4
	F5  *[]map[int]wkCQ12t5
	F6  *[]map[int]wkCQ12t6
	F7  *[]map[int]wkCQ12t7
	F8  *[]map[int]wkCQ12t8
	F9  *[]map[int]wkCQ12t9
	F10 *[]map[int]wkCQ12t10
	F11 *[]map[int]wkCQ12t11
}
type wkCQ12t2 struct {
	F0  *[]map[int]wkCQ12t0
	F1  *[]map[int]wkCQ12t1
	F2  *[]map[int]wkCQ12t2
	F3  *[]map[int]wkCQ12t3
	F4  *[]map[int]wkCQ12t4
	F5  *[]map[int]wkCQ12t5
	F6  *[]map[int]wkCQ12t6
	F7  *[]map[int]wkCQ12t7
	F8  *[]map[int]wkCQ12t8
	F9  *[]map[int]wkCQ12t9
	F10 *[]map[int]wkCQ12t10
	F11 *[]map[int]wkCQ12t11
}
type wkCQ12t3 struct {
	F0  *[]map[int]wkCQ12t0
	F1  *[]map[int]wkCQ12t1
	F2  *[]map[int]wkCQ12t2
	F3  *[]map[int]wkCQ12t3
	F4  *[]map[int]wkCQ12t4
	F5  *[]map[int]wkCQ12t5
	F6  *[]map[int]wkCQ12t6
	F7  *[]map[int]wkCQ12t7
	F8  *[]map[int]wkCQ12t8
	F9  *[]map[int]wkCQ12t9
	F10 *[]map[int]wkCQ12t10
	F11 *[]map[int]wkCQ12t11
}
type wkCQ12t4 struct {
	F0  *[]map[int]wkCQ12t0
	F1  *[]map[int]wkCQ12t1
	F2  *[]map[int]wkCQ12t2
	F3  *[]map[int]wkCQ12t3
	F4  *[]map[int]wkCQ12t4
	F5  *[]map[int]wkCQ12t5
	F6  *[]map[int]wkCQ12t6
	F7  *[]map[int]wkCQ12t7
	F8  *[]map[int]wkCQ12t8
	F9  *[]map[int]wkCQ12t9
	F10 *[]map[int]wkCQ12t10
	F11 *[]map[int]wkCQ12t11
}
type wkCQ12t5 struct {
	F0  *[]map[int]wkCQ12t0
	F1  *[]map[int]wkCQ12t1
	F2  *[]map[int]wkCQ12t2
	F3  *[]map[int]wkCQ12t3
	F4  *[]map[int]wkCQ12t4
	F5  *[]map[int]wkCQ12t5
	F6  *[]map[int]wkCQ12t6
	F7  *[]map[int]wkCQ12t7
	F8  *[]map[int]wkCQ12t8
	F9  *[]map[int]wkCQ12t9
	F10 *[]map[int]wkCQ12t10
	F11 *[]map[int]wkCQ12t11
}
type wkCQ12t6 struct {
	F0  *[]map[int]wkCQ12t0
	F1  *[]map[int]wkCQ12t1
	F2  *[]map[int]wkCQ12t2
	F3  *[]map[int]wkCQ12t3
	F4  *[]map[int]wkCQ12t4
	F5  *[]map[int]wkCQ12t5
	F6  *[]map[int]wkCQ12t6
	F7  *[]map[int]wkCQ12t7
	F8  *[]map[int]wkCQ12t8
	F9  *[]map[int]wkCQ12t9
	F10 *[]map[int]wkCQ12t10
	F11 *[]map[int]wkCQ12t11
}
type wkCQ12t7 struct {
	F0  *[]map[int]wkCQ12t0
	F1  *[]map[int]wkCQ12t1
	F2  *[]map[int]wkCQ12t2
	F3  *[]map[int]wkCQ12t3
	F4  *[]map[int]wkCQ12t4
	F5  *[]map[int]wkCQ12t5
	F6  *[]map[int]wkCQ12t6
	F7  *[]map[int]wkCQ12t7
	F8  *[]map[int]wkCQ12t8
	F9  *[]map[int]wkCQ12t9
	F10 *[]map[int]wkCQ12t10
	F11 *[]map[int]wkCQ12t11
}
type wkCQ12t8 struct {
	F0  *[]map[int]wkCQ12t0
	F1  *[]map[int]wkCQ12t1
	F2  *[]map[int]wkCQ12t2
	F3  *[]map[int]wkCQ12t3
	F4  *[]map[int]wkCQ12t4
	F5  *[]map[int]wkCQ12t5
	F6  *[]map[int]wkCQ12t6
	F7  *[]map[int]wkCQ12t7
	F8  *[]map[int]wkCQ12t8
	F9  *[]map[int]wkCQ12t9
	F10 *[]map[int]wkCQ12t10
	F11 *[]map[int]wkCQ12t11
}
type wkCQ12t9 struct {
	F0  *[]map[int]wkCQ12t0
	F1  *[]map[int]wkCQ12t1
	F2  *[]map[int]wkCQ12t2
	F3  *[]map[int]wkCQ12t3
	F4  *[]map[int]wkCQ12t4
	F5  *[]map[int]wkCQ12t5
	F6  *[]map[int]wkCQ12t6
	F7  *[]map[int]wkCQ12t7
	F8  *[]map[int]wkCQ12t8
	F9  *[]map[int]wkCQ12t9
	F10 *[]map[int]wkCQ12t10
	F11 *[]map[int]wkCQ12t11
}
type wkCQ12t10 struct {
	F0  *[]map[int]wkCQ12t0
	F1  *[]map[int]wkCQ12t1
	F2  *[]map[int]wkCQ12t2
	F3  *[]map[int]wkCQ12t3
	F4  *[]map[int]wkCQ12t4
	F5  *[]map[int]wkCQ12t5
	F6  *[]map[int]wkCQ12t6
	F7  *[]map[int]wkCQ12t7
	F8  *[]map[int]wkCQ12t8
	F9  *[]map[int]wkCQ12t9
	F10 *[]map[int]wkCQ12t10
	F11 *[]map[int]wkCQ12t11
}
type wkCQ12t11 struct {
	F0  *[]map[int]wkCQ12t0
	F1  *[]map[int]wkCQ12t1
	F2  *[]map[int]wkCQ12t2
	F3  *[]map[int]wkCQ12t3
	F4  *[]map[int]wkCQ12t4
	F5  *[]map[int]wkCQ12t5
	F6  *[]map[int]wkCQ12t6
	F7  *[]map[int]wkCQ12t7
	F8  *[]map[int]wkCQ12t8
	F9  *[]map[int]wkCQ12t9
	F10 *[]map[int]wkCQ12t10
	F11 *[]map[int]wkCQ12t11
}
type wkCQ16t0 struct {
	F0  *[]map[int]wkCQ16t0
	F1  *[]map[int]wkCQ16t1
	F2  *[]map[int]wkCQ16t2
	F3  *[]map[int]wkCQ16t3
	F4  *[]map[int]wkCQ16t4
	F5  *[]map[int]wkCQ16t5
	F6  *[]map[int]wkCQ16t6
	F7  *[]map[int]wkCQ16t7
	F8  *[]map[int]wkCQ16t8
	F9  *[]map[int]wkCQ16t9
	F10 *[]map[int]wkCQ16t10
	F11 *[]map[int]wkCQ16t11
	F12 *[]map[int]wkCQ16t12
	F13 *[]map[int]wkCQ16t13
	F14 *[]map[int]wkCQ16t14
	F15 *[]map[int]wkCQ16t15
}
type wkCQ16t1 struct {
	F0  *[]map[int]wkCQ16t0
	F1  *[]map[int]wkCQ16t1
	F2  *[]map[int]wkCQ16t2
	F3  *[]map[int]wkCQ16t3
	F4  *[]map[int]wkCQ16t4
	F5  *[]map[int]wkCQ16t5
	F6  *[]map[int]wkCQ16t6
	F7  *[]map[int]wkCQ16t7
	F8  *[]map[int]wkCQ16t8
	F9  *[]map[int]wkCQ16t9
	F10 *[]map[int]wkCQ16t10
	F11 *[]map[int]wkCQ16t11
	F12 *[]map[int]wkCQ16t12
	F13 *[]map[int]wkCQ16t13
	F14 *[]map[int]wkCQ16t14
	F15 *[]map[int]wkCQ16t15
}
type wkCQ16t2 struct {
	F0  *[]map[int]wkCQ16t0
	F1  *[]map[int]wkCQ16t1
	F2  *[]map[int]wkCQ16t2
	F3  *[]map[int]wkCQ16t3
	F4  *[]map[int]wkCQ16t4
	F5  *[]map[int]wkCQ16t5
	F6  *[]map[int]wkCQ16t6
	F7  *[]map[int]wkCQ16t7
	F8  *[]map[int]wkCQ16t8
	F9  *[]map[int]wkCQ16t9
	F10 *[]map[int]wkCQ16t10
	F11 *[]map[int]wkCQ16t11
	F12 *[]map[int]wkCQ16t12
	F13 *[]map[int]wkCQ16t13
	F14 *[]map[int]wkCQ16t14
	F15 *[]map[int]wkCQ16t15
}
type wkCQ16t3 struct {
	F0  *[]map[int]wkCQ16t0
	F1  *[]map[int]wkCQ16t1
	F2  *[]map[int]wkCQ16t2
	F3  *[]map[int]wkCQ16t3
	F4  *[]map[int]wkCQ16t4
	F5  *[]map[int]wkCQ16t5
	F6  *[]map[int]wkCQ16t6
	F7  *[]map[int]wkCQ16t7
	F8  *[]map[int]wkCQ16t8
	F9  *[]map[int]wkCQ16t9
	F10 *[]map[int]wkCQ16t10
	F11 *[]map[int]wkCQ16t11
	F12 *[]map[int]wkCQ16t12
	F13 *[]map[int]wkCQ16t13
	F14 *[]map[int]wkCQ16t14
	F15 *[]map[int]wkCQ16t15
}
type wkCQ16t4 struct {
	F0  *[]map[int]wkCQ16t0
	F1  *[]map[int]wkCQ16t1
	F2  *[]map[int]wkCQ16t2
	F3  *[]map[int]wkCQ16t3
	F4  *[]map[int]wkCQ16t4
	F5  *[]map[int]wkCQ16t5
	F6  *[]map[int]wkCQ16t6
	F7  *[]map[int]wkCQ16t7
	F8  *[]map[int]wkCQ16t8
	F9  *[]map[int]wkCQ16t9
	F10 *[]map[int]wkCQ16t10
	F11 *[]map[int]wkCQ16t11
	F12 *[]map[int]wkCQ16t12
	F13 *[]map[int]wkCQ16t13
	F14 *[]map[int]wkCQ16t14
	F15 *[]map[int]wkCQ16t15
}
type wkCQ16t5 struct {
	F0  *[]map[int]wkCQ16t0
	F1  *[]map[int]wkCQ16t1
	F2  *[]map[int]wkCQ16t2
	F3  *[]map[int]wkCQ16t3
	F4  *[]map[int]wkCQ16t4
	F5  *[]map[int]wkCQ16t5
	F6  *[]map[int]wkCQ16t6
	F7  *[]map[int]wkCQ16t7
	F8  *[]map[int]wkCQ16t8
	F9  *[]map[int]wkCQ16t9
	F10 *[]map[int]wkCQ16t10
	F11 *[]map[int]wkCQ16t11
	F12 *[]map[int]wkCQ16t12
	F13 *[]map[int]wkCQ16t13
	F14 *[]map[int]wkCQ16t14
	F15 *[]map[int]wkCQ16t15
}
type wkCQ16t6 struct {
	F0  *[]map[int]wkCQ16t0
	F1  *[]map[int]wkCQ16t1
	F2  *[]map[int]wkCQ16t2
	F3  *[]map[int]wkCQ16t3
	F4  *[]map[int]wkCQ16t4
	F5  *[]map[int]wkCQ16t5
	F6  *[]map[int]wkCQ16t6
	F7  *[]map[int]wkCQ16t7
	F8  *[]map[int]wkCQ16t8
	F9  *[]map[int]wkCQ16t9
	F10 *[]map[int]wkCQ16t10
	F11 *[]map[int]wkCQ16t11
	F12 *[]map[int]wkCQ16t12
	F13 *[]map[int]wkCQ16t13
	F14 *[]map[int]wkCQ16t14
	F15 *[]map[int]wkCQ16t15
}
type wkCQ16t7 struct {
	F0  *[]map[int]wkCQ16t0
	F1  *[]map[int]wkCQ16t1
	F2  *[]map[int]wkCQ16t2
	F3  *[]map[int]wkCQ16t3
	F4  *[]map[int]wkCQ16t4
	F5  *[]map[int]wkCQ16t5
	F6  *[]map[int]wkCQ16t6
	F7  *[]map[int]wkCQ16t7
	F8  *[]map[int]wkCQ16t8
	F9  *[]map[int]wkCQ16t9
	F10 *[]map[int]wkCQ16t10
	F11 *[]map[int]wkCQ16t11
	F12 *[]map[int]wkCQ16t12
	F13 *[]map[int]wkCQ16t13
	F14 *[]map[int]wkCQ16t14
	F15 *[]map[int]wkCQ16t15
}
type wkCQ16t8 struct {
	F0  *[]map[int]wkCQ16t0
	F1  *[]map[int]wkCQ16t1
	F2  *[]map[int]wkCQ16t2
	F3  *[]map[int]wkCQ16t3
	F4  *[]map[int]wkCQ16t4
	F5  *[]map[int]wkCQ16t5
	F6  *[]map[int]wkCQ16t6
	F7  *[]map[int]wkCQ16t7
	F8  *[]map[int]wkCQ16t8
	F9  *[]map[int]wkCQ16t9
	F10 *[]map[int]wkCQ16t10
	F11 *[]map[int]wkCQ16t11
	F12 *[]map[int]wkCQ16t12
	F13 *[]map[int]wkCQ16t13
	F14 *[]map[int]wkCQ16t14
	F15 *[]map[int]wkCQ16t15
}
type wkCQ16t9 struct {
	F0  *[]map[int]wkCQ16t0
	F1  *[]map[int]wkCQ16t1
	F2  *[]map[int]wkCQ16t2
	F3  *[]map[int]wkCQ16t3
	F4  *[]map[int]wkCQ16t4
	F5  *[]map[int]wkCQ16t5
	F6  *[]map[int]wkCQ16t6
	F7  *[]map[int]wkCQ16t7
	F8  *[]map[int]wkCQ16t8
	F9  *[]map[int]wkCQ16t9
	F10 *[]map[int]wkCQ16t10
	F11 *[]map[int]wkCQ16t11
	F12 *[]map[int]wkCQ16t12
	F13 *[]map[int]wkCQ16t13
	F14 *[]map[int]wkCQ16t14
	F15 *[]map[int]wkCQ16t15
}
type wkCQ16t10 struct {
	F0  *[]map[int]wkCQ16t0
	F1  *[]map[int]wkCQ16t1
	F2  *[]map[int]wkCQ16t2
	F3  *[]map[int]wkCQ16t3
	F4  *[]map[int]wkCQ16t4
	F5  *[]map[int]wkCQ16t5
	F6  *[]map[int]wkCQ16t6
	F7  *[]map[int]wkCQ16t7
	F8  *[]map[int]wkCQ16t8
	F9  *[]map[int]wkCQ16t9
	F10 *[]map[int]wkCQ16t10
	F11 *[]map[int]wkCQ16t11
	F12 *[]map[int]wkCQ16t12
	F13 *[]map[int]wkCQ16t13
	F14 *[]map[int]wkCQ16t14
	F15 *[]map[int]wkCQ16t15
}
type wkCQ16t11 struct {
	F0  *[]map[int]wkCQ16t0
	F1  *[]map[int]wkCQ16t1
	F2  *[]map[int]wkCQ16t2
	F3  *[]map[int]wkCQ16t3
	F4  *[]map[int]wkCQ16t4
	F5  *[]map[int]wkCQ16t5
	F6  *[]map[int]wkCQ16t6
	F7  *[]map[int]wkCQ16t7
	F8  *[]map[int]wkCQ16t8
	F9  *[]map[int]wkCQ16t9
	F10 *[]map[int]wkCQ16t10
	F11 *[]map[int]wkCQ16t11
	F12 *[]map[int]wkCQ16t12
	F13 *[]map[int]wkCQ16t13
	F14 *[]map[int]wkCQ16t14
	F15 *[]map[int]wkCQ16t15
}
type wkCQ16t12 struct {
	F0  *[]map[int]wkCQ16t0
	F1  *[]map[int]wkCQ16t1
	F2  *[]map[int]wkCQ16t2
	F3  *[]map[int]wkCQ16t3
	F4  *[]map[int]wkCQ16t4
	F5  *[]map[int]wkCQ16t5
	F6  *[]map[int]wkCQ16t6
	F7  *[]map[int]wkCQ16t7
	F8  *[]map[int]wkCQ16t8
	F9  *[]map[int]wkCQ16t9
	F10 *[]map[int]wkCQ16t10
	F11 *[]map[int]wkCQ16t11
	F12 *[]map[int]wkCQ16t12
	F13 *[]map[int]wkCQ16t13
	F14 *[]map[int]wkCQ16t14
	F15 *[]map[int]wkCQ16t15
}
type wkCQ16t13 struct {
	F0  *[]map[int]wkCQ16t0
	F1  *[]map[int]wkCQ16t1
	F2  *[]map[int]wkCQ16t2
	F3  *[]map[int]wkCQ16t3
	F4  *[]map[int]wkCQ16t4
	F5  *[]map[int]wkCQ16t5
	F6  *[]map[int]wkCQ16t6
	F7  *[]map[int]wkCQ16t7
	F8  *[]map[int]wkCQ16t8
	F9  *[]map[int]wkCQ16t9
	F10 *[]map[int]wkCQ16t10
	F11 *[]map[int]wkCQ16t11
	F12 *[]map[int]wkCQ16t12
	F13 *[]map[int]wkCQ16t13
	F14 *[]map[int]wkCQ16t14
	F15 *[]map[int]wkCQ16t15
}
type wkCQ16t14 struct {
	F0  *[]map[int]wkCQ16t0
	F1  *[]map[int]wkCQ16t1
	F2  *[]map[int]wkCQ16t2
	F3  *[]map[int]wkCQ16t3
	F4  *[]map[int]wkCQ16t4
	F5  *[]map[int]wkCQ16t5
	F6  *[]map[int]wkCQ16t6
	F7  *[]map[int]wkCQ16t7
	F8  *[]map[int]wkCQ16t8
	F9  *[]map[int]wkCQ16t9
	F10 *[]map[int]wkCQ16t10
	F11 *[]map[int]wkCQ16t11
	F12 *[]map[int]wkCQ16t12
	F13 *[]map[int]wkCQ16t13
	F14 *[]map[int]wkCQ16t14
	F15 *[]map[int]wkCQ16t15
}
type wkCQ16t15 struct {
	F0  *[]map[int]wkCQ16t0
	F1  *[]map[int]wkCQ16t1
	F2  *[]map[int]wkCQ16t2
	F3  *[]map[int]wkCQ16t3
	F4  *[]map[int]wkCQ16t4
	F5  *[]map[int]wkCQ16t5
	F6  *[]map[int]wkCQ16t6
	F7  *[]map[int]wkCQ16t7
	F8  *[]map[int]wkCQ16t8
	F9  *[]map[int]wkCQ16t9
	F10 *[]map[int]wkCQ16t10
	F11 *[]map[int]wkCQ16t11
	F12 *[]map[int]wkCQ16t12
	F13 *[]map[int]wkCQ16t13
	F14 *[]map[int]wkCQ16t14
	F15 *[]map[int]wkCQ16t15
}
type wkCQ24t0 struct {
	F0  *[]map[int]wkCQ24t0
	F1  *[]map[int]wkCQ24t1
	F2  *[]map[int]wkCQ24t2
	F3  *[]map[int]wkCQ24t3
	F4  *[]map[int]wkCQ24t4
	F5  *[]map[int]wkCQ24t5
	F6  *[]map[int]wkCQ24t6
	F7  *[]map[int]wkCQ24t7
	F8  *[]map[int]wkCQ24t8
	F9  *[]map[int]wkCQ24t9
	F10 *[]map[int]wkCQ24t10
	F11 *[]map[int]wkCQ24t11
	F12 *[]map[int]wkCQ24t12
	F13 *[]map[int]wkCQ24t13
	F14 *[]map[int]wkCQ24t14
	F15 *[]map[int]wkCQ24t15
	F16 *[]map[int]wkCQ24t16
	F17 *[]map[int]wkCQ24t17
	F18 *[]map[int]wkCQ24t18
	F19 *[]map[int]wkCQ24t19
	F20 *[]map[int]wkCQ24t20
	F21 *[]map[int]wkCQ24t21
	F22 *[]map[int]wkCQ24t22
	F23 *[]map[int]wkCQ24t23
}
type wkCQ24t1 struct {
	F0  *[]map[int]wkCQ24t0
	F1  *[]map[int]wkCQ24t1
	F2  *[]map[int]wkCQ24t2
	F3  *[]map[int]wkCQ24t3
	F4  *[]map[int]wkCQ24t4
	F5  *[]map[int]wkCQ24t5
	F6  *[]map[int]wkCQ24t6
	F7  *[]map[int]wkCQ24t7
	F8  *[]map[int]wkCQ24t8
	F9  *[]map[int]wkCQ24t9
	F10 *[]map[int]wkCQ24t10
	F11 *[]map[int]wkCQ24t11
	F12 *[]map[int]wkCQ24t12
	F13 *[]map[int]wkCQ24t13
	F14 *[]map[int]wkCQ24t14
	F15 *[]map[int]wkCQ24t15
	F16 *[]map[int]wkCQ24t16
	F17 *[]map[int]wkCQ24t17
	F18 *[]map[int]wkCQ24t18
	F19 *[]map[int]wkCQ24t19
	F20 *[]map[int]wkCQ24t20
	F21 *[]map[int]wkCQ24t21
	F22 *[]map[int]wkCQ24t22
	F23 *[]map[int]wkCQ24t23
}
type wkCQ24t2 struct {
	F0  *[]map[int]wkCQ24t0
	F1  *[]map[int]wkCQ24t1
	F2  *[]map[int]wkCQ24t2
	F3  *[]map[int]wkCQ24t3
	F4  *[]map[int]wkCQ24t4
	F5  *[]map[int]wkCQ24t5
	F6  *[]map[int]wkCQ24t6
	F7  *[]map[int]wkCQ24t7
	F8  *[]map[int]wkCQ24t8
	F9  *[]map[int]wkCQ24t9
	F10 *[]map[int]wkCQ24t10
	F11 *[]map[int]wkCQ24t11
	F12 *[]map[int]wkCQ24t12
	F13 *[]map[int]wkCQ24t13
	F14 *[]map[int]wkCQ24t14
	F15 *[]map[int]wkCQ24t15
	F16 *[]map[int]wkCQ24t16
	F17 *[]map[int]wkCQ24t17
	F18 *[]map[int]wkCQ24t18
	F19 *[]map[int]wkCQ24t19
	F20 *[]map[int]wkCQ24t20
	F21 *[]map[int]wkCQ24t21
	F22 *[]map[int]wkCQ24t22
	F23 *[]map[int]wkCQ24t23
}
type wkCQ24t3 struct {
	F0  *[]map[int]wkCQ24t0
	F1  *[]map[int]wkCQ24t1
	F2  *[]map[int]wkCQ24t2
	F3  *[]map[int]wkCQ24t3
	F4  *[]map[int]wkCQ24t4
	F5  *[]map[int]wkCQ24t5
	F6  *[]map[int]wkCQ24t6
	F7  *[]map[int]wkCQ24t7
	F8  *[]map[int]wkCQ24t8
	F9  *[]map[int]wkCQ24t9
	F10 *[]map[int]wkCQ24t10
	F11 *[]map[int]wkCQ24t11
	F12 *[]map[int]wkCQ24t12
	F13 *[]map[int]wkCQ24t13
	F14 *[]map[int]wkCQ24t14
	F15 *[]map[int]wkCQ24t15
	F16 *[]map[int]wkCQ24t16
	F17 *[]map[int]wkCQ24t17
	F18 *[]map[int]wkCQ24t18
	F19 *[]map[int]wkCQ24t19
	F20 *[]map[int]wkCQ24t20
	F21 *[]map[int]wkCQ24t21
	F22 *[]map[int]wkCQ24t22
	F23 *[]map[int]wkCQ24t23
}
type wkCQ24t4 struct {
	F0  *[]map[int]wkCQ24t0
	F1  *[]map[int]wkCQ24t1
	F2  *[]map[int]wkCQ24t2
	F3  *[]map[int]wkCQ24t3
	F4  *[]map[int]wkCQ24t4
	F5  *[]map[int]wkCQ24t5
	F6  *[]map[int]wkCQ24t6
	F7  *[]map[int]wkCQ24t7
	F8  *[]map[int]wkCQ24t8
	F9  *[]map[int]wkCQ24t9
	F10 *[]map[int]wkCQ24t10
	F11 *[]map[int]wkCQ24t11
	F12 *[]map[int]wkCQ24t12
	F13 *[]map[int]wkCQ24t13
	F14 *[]map[int]wkCQ24t14
	F15 *[]map[int]wkCQ24t15
	F16 *[]map[int]wkCQ24t16
	F17 *[]map[int]wkCQ24t17
	F18 *[]map[int]wkCQ24t18
	F19 *[]map[int]wkCQ24t19
	F20 *[]map[int]wkCQ24t20
	F21 *[]map[int]wkCQ24t21
	F22 *[]map[int]wkCQ24t22
	F23 *[]map[int]wkCQ24t23
}
type wkCQ24t5 struct {
	F0  *[]map[int]wkCQ24t0
	F1  *[]map[int]wkCQ24t1
	F2  *[]map[int]wkCQ24t2
	F3  *[]map[int]wkCQ24t3
	F4  *[]map[int]wkCQ24t4
	F5  *[]map[int]wkCQ24t5
	F6  *[]map[int]wkCQ24t6
	F7  *[]map[int]wkCQ24t7
	F8  *[]map[int]wkCQ24t8
	F9  *[]map[int]wkCQ24t9
	F10 *[]map[int]wkCQ24t10
	F11 *[]map[int]wkCQ24t11
	F12 *[]map[int]wkCQ24t12
	F13 *[]map[int]wkCQ24t13
	F14 *[]map[int]wkCQ24t14
	F15 *[]map[int]wkCQ24t15
	F16 *[]map[int]wkCQ24t16
	F17 *[]map[int]wkCQ24t17
	F18 *[]map[int]wkCQ24t18
	F19 *[]map[int]wkCQ24t19
	F20 *[]map[int]wkCQ24t20
	F21 *[]map[int]wkCQ24t21
	F22 *[]map[int]wkCQ24t22
	F23 *[]map[int]wkCQ24t23
}
type wkCQ24t6 struct {
	F0  *[]map[int]wkCQ24t0
	F1  *[]map[int]wkCQ24t1
	F2  *[]map[int]wkCQ24t2
	F3  *[]map[int]wkCQ24t3
	F4  *[]map[int]wkCQ24t4
	F5  *[]map[int]wkCQ24t5
	F6  *[]map[int]wkCQ24t6
	F7  *[]map[int]wkCQ24t7
	F8  *[]map[int]wkCQ24t8
	F9  *[]map[int]wkCQ24t9
	F10 *[]map[int]wkCQ24t10
	F11 *[]map[int]wkCQ24t11
	F12 *[]map[int]wkCQ24t12
	F13 *[]map[int]wkCQ24t13
	F14 *[]map[int]wkCQ24t14
	F15 *[]map[int]wkCQ24t15
	F16 *[]map[int]wkCQ24t16
	F17 *[]map[int]wkCQ24t17
	F18 *[]map[int]wkCQ24t18
	F19 *[]map[int]wkCQ24t19
	F20 *[]map[int]wkCQ24t20
	F21 *[]map[int]wkCQ24t21
	F22 *[]map[int]wkCQ24t22
	F23 *[]map[int]wkCQ24t23
}
type wkCQ24t7 struct {
	F0  *[]map[int]wkCQ24t0
	F1  *[]map[int]wkCQ24t1
	F2  *[]map[int]wkCQ24t2
	F3  *[]map[int]wkCQ24t3
	F4  *[]map[int]wkCQ24t4
	F5  *[]map[int]wkCQ24t5
	F6  *[]map[int]wkCQ24t6
	F7  *[]map[int]wkCQ24t7
	F8  *[]map[int]wkCQ24t8
	F9  *[]map[int]wkCQ24t9
	F10 *[]map[int]wkCQ24t10
	F11 *[]map[int]wkCQ24t11
	F12 *[]map[int]wkCQ24t12
	F13 *[]map[int]wkCQ24t13
	F14 *[]map[int]wkCQ24t14
	F15 *[]map[int]wkCQ24t15
	F16 *[]map[int]wkCQ24t16
	F17 *[]map[int]wkCQ24t17
	F18 *[]map[int]wkCQ24t18
	F19 *[]map[int]wkCQ24t19
	F20 *[]map[int]wkCQ24t20
	F21 *[]map[int]wkCQ24t21
	F22 *[]map[int]wkCQ24t22
	F23 *[]map[int]wkCQ24t23
}
type wkCQ24t8 struct {
	F0  *[]map[int]wkCQ24t0
	F1  *[]map[int]wkCQ24t1
	F2  *[]map[int]wkCQ24t2
	F3  *[]map[int]wkCQ24t3
	F4  *[]map[int]wkCQ24t4
	F5  *[]map[int]wkCQ24t5
	F6  *[]map[int]wkCQ24t6
	F7  *[]map[int]wkCQ24t7
	F8  *[]map[int]wkCQ24t8
	F9  *[]map[int]wkCQ24t9
	F10 *[]map[int]wkCQ24t10
	F11 *[]map[int]wkCQ24t11
	F12 *[]map[int]wkCQ24t12
	F13 *[]map[int]wkCQ24t13
	F14 *[]map[int]wkCQ24t14
	F15 *[]map[int]wkCQ24t15
	F16 *[]map[int]wkCQ24t16
	F17 *[]map[int]wkCQ24t17
	F18 *[]map[int]wkCQ24t18
	F19 *[]map[int]wkCQ24t19
	F20 *[]map[int]wkCQ24t20
	F21 *[]map[int]wkCQ24t21
	F22 *[]map[int]wkCQ24t22
	F23 *[]map[int]wkCQ24t23
}
type wkCQ24t9 struct {
	F0  *[]map[int]wkCQ24t0
	F1  *[]map[int]wkCQ24t1
	F2  *[]map[int]wkCQ24t2
	F3  *[]map[int]wkCQ24t3
	F4  *[]map[int]wkCQ24t4
	F5  *[]map[int]wkCQ24t5
	F6  *[]map[int]wkCQ24t6
	F7  *[]map[int]wkCQ24t7
	F8  *[]map[int]wkCQ24t8
	F9  *[]map[int]wkCQ24t9
	F10 *[]map[int]wkCQ24t10
	F11 *[]map[int]wkCQ24t11
	F12 *[]map[int]wkCQ24t12
	F13 *[]map[int]wkCQ24t13
	F14 *[]map[int]wkCQ24t14
	F15 *[]map[int]wkCQ24t15
	F16 *[]map[int]wkCQ24t16
	F17 *[]map[int]wkCQ24t17
	F18 *[]map[int]wkCQ24t18
	F19 *[]map[int]wkCQ24t19
	F20 *[]map[int]wkCQ24t20
	F21 *[]map[int]wkCQ24t21
	F22 *[]map[int]wkCQ24t22
	F23 *[]map[int]wkCQ24t23
}
type wkCQ24t10 struct {
	F0  *[]map[int]wkCQ24t0
	F1  *[]map[int]wkCQ24t1
	F2  *[]map[int]wkCQ24t2
	F3  *[]map[int]wkCQ24t3
	F4  *[]map[int]wkCQ24t4
	F5  *[]map[int]wkCQ24t5
	F6  *[]map[int]wkCQ24t6
	F7  *[]map[int]wkCQ24t7
	F8  *[]map[int]wkCQ24t8
	F9  *[]map[int]wkCQ24t9
	F10 *[]map[int]wkCQ24t10
	F11 *[]map[int]wkCQ24t11
	F12 *[]map[int]wkCQ24t12
	F13 *[]map[int]wkCQ24t13
	F14 *[]map[int]wkCQ24t14
	F15 *[]map[int]wkCQ24t15
	F16 *[]map[int]wkCQ24t16
	F17 *[]map[int]wkCQ24t17
	F18 *[]map[int]wkCQ24t18
	F19 *[]map[int]wkCQ24t19
	F20 *[]map[int]wkCQ24t20
	F21 *[]map[int]wkCQ24t21
	F22 *[]map[int]wkCQ24t22
	F23 *[]map[int]wkCQ24t23
}
type wkCQ24t11 struct {
	F0  *[]map[int]wkCQ24t0
	F1  *[]map[int]wkCQ24t1
	F2  *[]map[int]wkCQ24t2
	F3  *[]map[int]wkCQ24t3
	F4  *[]map[int]wkCQ24t4
	F5  *[]map[int]wkCQ24t5
	F6  *[]map[int]wkCQ24t6
	F7  *[]map[int]wkCQ24t7
	F8  *[]map[int]wkCQ24t8
	F9  *[]map[int]wkCQ24t9
	F10 *[]map[int]wkCQ24t10
	F11 *[]map[int]wkCQ24t11
	F12 *[]map[int]wkCQ24t12
	F13 *[]map[int]wkCQ24t13
	F14 *[]map[int]wkCQ24t14
	F15 *[]map[int]wkCQ24t15
	F16 *[]map[int]wkCQ24t16
	F17 *[]map[int]wkCQ24t17
	F18 *[]map[int]wkCQ24t18
	F19 *[]map[int]wkCQ24t19
	F20 *[]map[int]wkCQ24t20
	F21 *[]map[int]wkCQ24t21
	F22 *[]map[int]wkCQ24t22
	F23 *[]map[int]wkCQ24t23
}
type wkCQ24t12 struct {
	F0  *[]map[int]wkCQ24t0
	F1  *[]map[int]wkCQ24t1
	F2  *[]map[int]wkCQ24t2
	F3  *[]map[int]wkCQ24t3
	F4  *[]map[int]wkCQ24t4
	F5  *[]map[int]wkCQ24t5
	F6  *[]map[int]wkCQ24t6
	F7  *[]map[int]wkCQ24t7
	F8  *[]map[int]wkCQ24t8
	F9  *[]map[int]wkCQ24t9
	F10 *[]map[int]wkCQ24t10
	F11 *[]map[int]wkCQ24t11
	F12 *[]map[int]wkCQ24t12
	F13 *[]map[int]wkCQ24t13
	F14 *[]map[int]wkCQ24t14
	F15 *[]map[int]wkCQ24t15
	F16 *[]map[int]wkCQ24t16
	F17 *[]map[int]wkCQ24t17
	F18 *[]map[int]wkCQ24t18
	F19 *[]map[int]wkCQ24t19
	F20 *[]map[int]wkCQ24t20
	F21 *[]map[int]wkCQ24t21
	F22 *[]map[int]wkCQ24t22
	F23 *[]map[int]wkCQ24t23
}
type wkCQ24t13 struct {
	F0  *[]map[int]wkCQ24t0
	F1  *[]map[int]wkCQ24t1
	F2  *[]map[int]wkCQ24t2
	F3  *[]map[int]wkCQ24t3
	F4  *[]map[int]wkCQ24t4
	F5  *[]map[int]wkCQ24t5
	F6  *[]map[int]wkCQ24t6
	F7  *[]map[int]wkCQ24t7
	F8  *[]map[int]wkCQ24t8
	F9  *[]map[int]wkCQ24t9
	F10 *[]map[int]wkCQ24t10
	F11 *[]map[int]wkCQ24t11
	F12 *[]map[int]wkCQ24t12
	F13 *[]map[int]wkCQ24t13
	F14 *[]map[int]wkCQ24t14
	F15 *[]map[int]wkCQ24t15
	F16 *[]map[int]wkCQ24t16
	F17 *[]map[int]wkCQ24t17
	F18 *[]map[int]wkCQ24t18
	F19 *[]map[int]wkCQ24t19
	F20 *[]map[int]wkCQ24t20
	F21 *[]map[int]wkCQ24t21
	F22 *[]map[int]wkCQ24t22
	F23 *[]map[int]wkCQ24t23
}
type wkCQ24t14 struct {
	F0  *[]map[int]wkCQ24t0
	F1  *[]map[int]wkCQ24t1
	F2  *[]map[int]wkCQ24t2
	F3  *[]map[int]wkCQ24t3
	F4  *[]map[int]wkCQ24t4
	F5  *[]map[int]wkCQ24t5
	F6  *[]map[int]wkCQ24t6
	F7  *[]map[int]wkCQ24t7
	F8  *[]map[int]wkCQ24t8
	F9  *[]map[int]wkCQ24t9
	F10 *[]map[int]wkCQ24t10
	F11 *[]map[int]wkCQ24t11
	F12 *[]map[int]wkCQ24t12
	F13 *[]map[int]wkCQ24t13
	F14 *[]map[int]wkCQ24t14
	F15 *[]map[int]wkCQ24t15
	F16 *[]map[int]wkCQ24t16
	F17 *[]map[int]wkCQ24t17
	F18 *[]map[int]wkCQ24t18
	F19 *[]map[int]wkCQ24t19
	F20 *[]map[int]wkCQ24t20
	F21 *[]map[int]wkCQ24t21
	F22 *[]map[int]wkCQ24t22
	F23 *[]map[int]wkCQ24t23
}
type wkCQ24t15 struct {
	F0  *[]map[int]wkCQ24t0
	F1  *[]map[int]wkCQ24t1
	F2  *[]map[int]wkCQ24t2
	F3  *[]map[int]wkCQ24t3
	F4  *[]map[int]wkCQ24t4
	F5  *[]map[int]wkCQ24t5
	F6  *[]map[int]wkCQ24t6
	F7  *[]map[int]wkCQ24t7
	F8  *[]map[int]wkCQ24t8
	F9  *[]map[int]wkCQ24t9
	F10 *[]map[int]wkCQ24t10
	F11 *[]map[int]wkCQ24t11
	F12 *[]map[int]wkCQ24t12
	F13 *[]map[int]wkCQ24t13
	F14 *[]map[int]wkCQ24t14
	F15 *[]map[int]wkCQ24t15
	F16 *[]map[int]wkCQ24t16
	F17 *[]map[int]wkCQ24t17
	F18 *[]map[int]wkCQ24t18
	F19 *[]map[int]wkCQ24t19
	F20 *[]map[int]wkCQ24t20
	F21 *[]map[int]wkCQ24t21
	F22 *[]map[int]wkCQ24t22
	F23 *[]map[int]wkCQ24t23
}
type wkCQ24t16 struct {
	F0  *[]map[int]wkCQ24t0
	F1  *[]map[int]wkCQ24t1
	F2  *[]map[int]wkCQ24t2
	F3  *[]map[int]wkCQ24t3
	F4  *[]map[int]wkCQ24t4
	F5  *[]map[int]wkCQ24t5
	F6  *[]map[int]wkCQ24t6
	F7  *[]map[int]wkCQ24t7
	F8  *[]map[int]wkCQ24t8
	F9  *[]map[int]wkCQ24t9
	F10 *[]map[int]wkCQ24t10
	F11 *[]map[int]wkCQ24t11
	F12 *[]map[int]wkCQ24t12
	F13 *[]map[int]wkCQ24t13
	F14 *[]map[int]wkCQ24t14
	F15 *[]map[int]wkCQ24t15
	F16 *[]map[int]wkCQ24t16
	F17 *[]map[int]wkCQ24t17
	F18 *[]map[int]wkCQ24t18
	F19 *[]map[int]wkCQ24t19
	F20 *[]map[int]wkCQ24t20
	F21 *[]map[int]wkCQ24t21
	F22 *[]map[int]wkCQ24t22
	F23 *[]map[int]wkCQ24t23
}
type wkCQ24t17 struct {
	F0  *[]map[int]wkCQ24t0
	F1  *[]map[int]wkCQ24t1
	F2  *[]map[int]wkCQ24t2
	F3  *[]map[int]wkCQ24t3
	F4  *[]map[int]wkCQ24t4
	F5  *[]map[int]wkCQ24t5
	F6  *[]map[int]wkCQ24t6
	F7  *[]map[int]wkCQ24t7
	F8  *[]map[int]wkCQ24t8
	F9  *[]map[int]wkCQ24t9
	F10 *[]map[int]wkCQ24t10
	F11 *[]map[int]wkCQ24t11
	F12 *[]map[int]wkCQ24t12
	F13 *[]map[int]wkCQ24t13
	F14 *[]map[int]wkCQ24t14
	F15 *[]map[int]wkCQ24t15
	F16 *[]map[int]wkCQ24t16
	F17 *[]map[int]wkCQ24t17
	F18 *[]map[int]wkCQ24t18
	F19 *[]map[int]wkCQ24t19
	F20 *[]map[int]wkCQ24t20
	F21 *[]map[int]wkCQ24t21
	F22 *[]map[int]wkCQ24t22
	F23 *[]map[int]wkCQ24t23
}
type wkCQ24t18 struct {
	F0  *[]map[int]wkCQ24t0
	F1  *[]map[int]wkCQ24t1
	F2  *[]map[int]wkCQ24t2
	F3  *[]map[int]wkCQ24t3
	F4  *[]map[int]wkCQ24t4
	F5  *[]map[int]wkCQ24t5
	F6  *[]map[int]wkCQ24t6
	F7  *[]map[int]wkCQ24t7
	F8  *[]map[int]wkCQ24t8
	F9  *[]map[int]wkCQ24t9
	F10 *[]map[int]wkCQ24t10
	F11 *[]map[int]wkCQ24t11
	F12 *[]map[int]wkCQ24t12
	F13 *[]map[int]wkCQ24t13
	F14 *[]map[int]wkCQ24t14
	F15 *[]map[int]wkCQ24t15
	F16 *[]map[int]wkCQ24t16
	F17 *[]map[int]wkCQ24t17
	F18 *[]map[int]wkCQ24t18
	F19 *[]map[int]wkCQ24t19
	F20 *[]map[int]wkCQ24t20
	F21 *[]map[int]wkCQ24t21
	F22 *[]map[int]wkCQ24t22
	F23 *[]map[int]wkCQ24t23
}
type wkCQ24t19 struct {
	F0  *[]map[int]wkCQ24t0
	F1  *[]map[int]wkCQ24t1
	F2  *[]map[int]wkCQ24t2
	F3  *[]map[int]wkCQ24t3
	F4  *[]map[int]wkCQ24t4
	F5  *[]map[int]wkCQ24t5
	F6  *[]map[int]wkCQ24t6
	F7  *[]map[int]wkCQ24t7
	F8  *[]map[int]wkCQ24t8
	F9  *[]map[int]wkCQ24t9
	F10 *[]map[int]wkCQ24t10
	F11 *[]map[int]wkCQ24t11
	F12 *[]map[int]wkCQ24t12
	F13 *[]map[int]wkCQ24t13
	F14 *[]map[int]wkCQ24t14
	F15 *[]map[int]wkCQ24t15
	F16 *[]map[int]wkCQ24t16
	F17 *[]map[int]wkCQ24t17
	F18 *[]map[int]wkCQ24t18
	F19 *[]map[int]wkCQ24t19
	F20 *[]map[int]wkCQ24t20
	F21 *[]map[int]wkCQ24t21
	F22 *[]map[int]wkCQ24t22
	F23 *[]map[int]wkCQ24t23
}
type wkCQ24t20 struct {
	F0  *[]map[int]wkCQ24t0
	F1  *[]map[int]wkCQ24t1
	F2  *[]map[int]wkCQ24t2
	F3  *[]map[int]wkCQ24t3
	F4  *[]map[int]wkCQ24t4
	F5  *[]map[int]wkCQ24t5
	F6  *[]map[int]wkCQ24t6
	F7  *[]map[int]wkCQ24t7
	F8  *[]map[int]wkCQ24t8
	F9  *[]map[int]wkCQ24t9
	F10 *[]map[int]wkCQ24t10
	F11 *[]map[int]wkCQ24t11
	F12 *[]map[int]wkCQ24t12
	F13 *[]map[int]wkCQ24t13
	F14 *[]map[int]wkCQ24t14
	F15 *[]map[int]wkCQ24t15
	F16 *[]map[int]wkCQ24t16
	F17 *[]map[int]wkCQ24t17
	F18 *[]map[int]wkCQ24t18
	F19 *[]map[int]wkCQ24t19
	F20 *[]map[int]wkCQ24t20
	F21 *[]map[int]wkCQ24t21
	F22 *[]map[int]wkCQ24t22
	F23 *[]map[int]wkCQ24t23
}
type wkCQ24t21 struct {
	F0  *[]map[int]wkCQ24t0
	F1  *[]map[int]wkCQ24t1
	F2  *[]map[int]wkCQ24t2
	F3  *[]map[int]wkCQ24t3
	F4  *[]map[int]wkCQ24t4
	F5  *[]map[int]wkCQ24t5
	F6  *[]map[int]wkCQ24t6
	F7  *[]map[int]wkCQ24t7
	F8  *[]map[int]wkCQ24t8
	F9  *[]map[int]wkCQ24t9
	F10 *[]map[int]wkCQ24t10
	F11 *[]map[int]wkCQ24t11
	F12 *[]map[int]wkCQ24t12
	F13 *[]map[int]wkCQ24t13
	F14 *[]map[int]wkCQ24t14
	F15 *[]map[int]wkCQ24t15
	F16 *[]map[int]wkCQ24t16
	F17 *[]map[int]wkCQ24t17
	F18 *[]map[int]wkCQ24t18
	F19 *[]map[int]wkCQ24t19
	F20 *[]map[int]wkCQ24t20
	F21 *[]map[int]wkCQ24t21
	F22 *[]map[int]wkCQ24t22
	F23 *[]map[int]wkCQ24t23
}
type wkCQ24t22 struct {
	F0  *[]map[int]wkCQ24t0
	F1  *[]map[int]wkCQ24t1
	F2  *[]map[int]wkCQ24t2
	F3  *[]map[int]wkCQ24t3
	F4  *[]map[int]wkCQ24t4
	F5  *[]map[int]wkCQ24t5
	F6  *[]map[int]wkCQ24t6
	F7  *[]map[int]wkCQ24t7
	F8  *[]map[int]wkCQ24t8
	F9  *[]map[int]wkCQ24t9
	F10 *[]map[int]wkCQ24t10
	F11 *[]map[int]wkCQ24t11
	F12 *[]map[int]wkCQ24t12
	F13 *[]map[int]wkCQ24t13
	F14 *[]map[int]wkCQ24t14
	F15 *[]map[int]wkCQ24t15
	F16 *[]map[int]wkCQ24t16
	F17 *[]map[int]wkCQ24t17
	F18 *[]map[int]wkCQ24t18
	F19 *[]map[int]wkCQ24t19
	F20 *[]map[int]wkCQ24t20
	F21 *[]map[int]wkCQ24t21
	F22 *[]map[int]wkCQ24t22
	F23 *[]map[int]wkCQ24t23
}
type wkCQ24t23 struct {
	F0  *[]map[int]wkCQ24t0
	F1  *[]map[int]wkCQ24t1
	F2  *[]map[int]wkCQ24t2
	F3  *[]map[int]wkCQ24t3
	F4  *[]map[int]wkCQ24t4
	F5  *[]map[int]wkCQ24t5
	F6  *[]map[int]wkCQ24t6
	F7  *[]map[int]wkCQ24t7
	F8  *[]map[int]wkCQ24t8
	F9  *[]map[int]wkCQ24t9
	F10 *[]map[int]wkCQ24t10
	F11 *[]map[int]wkCQ24t11
	F12 *[]map[int]wkCQ24t12
	F13 *[]map[int]wkCQ24t13
	F14 *[]map[int]wkCQ24t14
	F15 *[]map[int]wkCQ24t15
	F16 *[]map[int]wkCQ24t16
	F17 *[]map[int]wkCQ24t17
	F18 *[]map[int]wkCQ24t18
	F19 *[]map[int]wkCQ24t19
	F20 *[]map[int]wkCQ24t20
	F21 *[]map[int]wkCQ24t21
	F22 *[]map[int]wkCQ24t22
	F23 *[]map[int]wkCQ24t23
}
type wkDQ4t0 struct{ A int }
type wkDQ4t1 struct {
	A *[]map[int]wkDQ4t0
	B *[]map[int]wkDQ4t0
	C *[]map[int]wkDQ4t0
}
type wkDQ4t2 struct {
	A *[]map[int]wkDQ4t1
	B *[]map[int]wkDQ4t1
	C *[]map[int]wkDQ4t1
}
type wkDQ4t3 struct {
	A *[]map[int]wkDQ4t2
	B *[]map[int]wkDQ4t2
	C *[]map[int]wkDQ4t2
}
type wkDQ4t4 struct {
	A *[]map[int]wkDQ4t3
	B *[]map[int]wkDQ4t3
	C *[]map[int]wkDQ4t3
}
type wkDQ8t0 struct{ A int }
type wkDQ8t1 struct {
	A *[]map[int]wkDQ8t0
	B *[]map[int]wkDQ8t0
	C *[]map[int]wkDQ8t0
}
type wkDQ8t2 struct {
	A *[]map[int]wkDQ8t1
	B *[]map[int]wkDQ8t1
	C *[]map[int]wkDQ8t1
}
type wkDQ8t3 struct {
	A *[]map[int]wkDQ8t2
	B *[]map[int]wkDQ8t2
	C *[]map[int]wkDQ8t2
}
type wkDQ8t4 struct {
	A *[]map[int]wkDQ8t3
	B *[]map[int]wkDQ8t3
	C *[]map[int]wkDQ8t3
}
type wkDQ8t5 struct {
	A *[]map[int]wkDQ8t4
	B *[]map[int]wkDQ8t4
	C *[]map[int]wkDQ8t4
}
type wkDQ8t6 struct {
	A *[]map[int]wkDQ8t5
	B *[]map[int]wkDQ8t5
	C *[]map[int]wkDQ8t5
}
type wkDQ8t7 struct {
	A *[]map[int]wkDQ8t6
	B *[]map[int]wkDQ8t6
	C *[]map[int]wkDQ8t6
}
type wkDQ8t8 struct {
	A *[]map[int]wkDQ8t7
	B *[]map[int]wkDQ8t7
	C *[]map[int]wkDQ8t7
}
type wkDQ11t0 struct{ A int }
type wkDQ11t1 struct {
	A *[]map[int]wkDQ11t0
	B *[]map[int]wkDQ11t0
	C *[]map[int]wkDQ11t0
}
type wkDQ11t2 struct {
	A *[]map[int]wkDQ11t1
	B *[]map[int]wkDQ11t1
	C *[]map[int]wkDQ11t1
}
type wkDQ11t3 struct {
	A *[]map[int]wkDQ11t2
	B *[]map[int]wkDQ11t2
	C *[]map[int]wkDQ11t2
}
type wkDQ11t4 struct {
	A *[]map[int]wkDQ11t3
	B *[]map[int]wkDQ11t3
	C *[]map[int]wkDQ11t3
}
type wkDQ11t5 struct {
	A *[]map[int]wkDQ11t4
	B *[]map[int]wkDQ11t4
	C *[]map[int]wkDQ11t4
}
type wkDQ11t6 struct {
	A *[]map[int]wkDQ11t5
	B *[]map[int]wkDQ11t5
	C *[]map[int]wkDQ11t5
}
type wkDQ11t7 struct {
	A *[]map[int]wkDQ11t6
	B *[]map[int]wkDQ11t6
	C *[]map[int]wkDQ11t6
}
type wkDQ11t8 struct {
	A *[]map[int]wkDQ11t7
	B *[]map[int]wkDQ11t7
	C *[]map[int]wkDQ11t7
}
type wkDQ11t9 struct {
	A *[]map[int]wkDQ11t8
	B *[]map[int]wkDQ11t8
	C *[]map[int]wkDQ11t8
}
type wkDQ11t10 struct {
	A *[]map[int]wkDQ11t9
	B *[]map[int]wkDQ11t9
	C *[]map[int]wkDQ11t9
}
type wkDQ11t11 struct {
	A *[]map[int]wkDQ11t10
	B *[]map[int]wkDQ11t10
	C *[]map[int]wkDQ11t10
}
type wkDQ13t0 struct{ A int }
type wkDQ13t1 struct {
	A *[]map[int]wkDQ13t0
	B *[]map[int]wkDQ13t0
	C *[]map[int]wkDQ13t0
}
type wkDQ13t2 struct {
	A *[]map[int]wkDQ13t1
	B *[]map[int]wkDQ13t1
	C *[]map[int]wkDQ13t1
}
type wkDQ13t3 struct {
	A *[]map[int]wkDQ13t2
	B *[]map[int]wkDQ13t2
	C *[]map[int]wkDQ13t2
}
type wkDQ13t4 struct {
	A *[]map[int]wkDQ13t3
	B *[]map[int]wkDQ13t3
	C *[]map[int]wkDQ13t3
}
type wkDQ13t5 struct {
	A *[]map[int]wkDQ13t4
	B *[]map[int]wkDQ13t4
	C *[]map[int]wkDQ13t4
}
type wkDQ13t6 struct {
	A *[]map[int]wkDQ13t5
	B *[]map[int]wkDQ13t5
	C *[]map[int]wkDQ13t5
}
type wkDQ13t7 struct {
	A *[]map[int]wkDQ13t6
	B *[]map[int]wkDQ13t6
	C *[]map[int]wkDQ13t6
}
type wkDQ13t8 struct {
	A *[]map[int]wkDQ13t7
	B *[]map[int]wkDQ13t7
	C *[]map[int]wkDQ13t7
}
type wkDQ13t9 struct {
	A *[]map[int]wkDQ13t8
	B *[]map[int]wkDQ13t8
	C *[]map[int]wkDQ13t8
}
type wkDQ13t10 struct {
	A *[]map[int]wkDQ13t9
	B *[]map[int]wkDQ13t9
	C *[]map[int]wkDQ13t9
}
type wkDQ13t11 struct {
	A *[]map[int]wkDQ13t10
	B *[]map[int]wkDQ13t10
	C *[]map[int]wkDQ13t10
}
type wkDQ13t12 struct {
	A *[]map[int]wkDQ13t11
	B *[]map[int]wkDQ13t11
	C *[]map[int]wkDQ13t11
}
type wkDQ13t13 struct {
	A *[]map[int]wkDQ13t12
	B *[]map[int]wkDQ13t12
	C *[]map[int]wkDQ13t12
}
type wkDQ16t0 struct{ A int }
type wkDQ16t1 struct {
	A *[]map[int]wkDQ16t0
	B *[]map[int]wkDQ16t0
	C *[]map[int]wkDQ16t0
}
type wkDQ16t2 struct {
	A *[]map[int]wkDQ16t1
	B *[]map[int]wkDQ16t1
	C *[]map[int]wkDQ16t1
}
type wkDQ16t3 struct {
	A *[]map[int]wkDQ16t2
	B *[]map[int]wkDQ16t2
	C *[]map[int]wkDQ16t2
}
type wkDQ16t4 struct {
	A *[]map[int]wkDQ16t3
	B *[]map[int]wkDQ16t3
	C *[]map[int]wkDQ16t3
}
type wkDQ16t5 struct {
	A *[]map[int]wkDQ16t4
	B *[]map[int]wkDQ16t4
	C *[]map[int]wkDQ16t4
}
type wkDQ16t6 struct {
	A *[]map[int]wkDQ16t5
	B *[]map[int]wkDQ16t5
	C *[]map[int]wkDQ16t5
}
type wkDQ16t7 struct {
	A *[]map[int]wkDQ16t6
	B *[]map[int]wkDQ16t6
	C *[]map[int]wkDQ16t6
}
type wkDQ16t8 struct {
	A *[]map[int]wkDQ16t7
	B *[]map[int]wkDQ16t7
	C *[]map[int]wkDQ16t7
}
type wkDQ16t9 struct {
	A *[]map[int]wkDQ16t8
	B *[]map[int]wkDQ16t8
	C *[]map[int]wkDQ16t8
}
type wkDQ16t10 struct {
	A *[]map[int]wkDQ16t9
	B *[]map[int]wkDQ16t9
	C *[]map[int]wkDQ16t9
}
type wkDQ16t11 struct {
	A *[]map[int]wkDQ16t10
	B *[]map[int]wkDQ16t10
	C *[]map[int]wkDQ16t10
}
type wkDQ16t12 struct {
	A *[]map[int]wkDQ16t11
	B *[]map[int]wkDQ16t11
	C *[]map[int]wkDQ16t11
}
type wkDQ16t13 struct {
	A *[]map[int]wkDQ16t12
	B *[]map[int]wkDQ16t12
	C *[]map[int]wkDQ16t12
}
type wkDQ16t14 struct {
	A *[]map[int]wkDQ16t13
	B *[]map[int]wkDQ16t13
	C *[]map[int]wkDQ16t13
}
type wkDQ16t15 struct {
	A *[]map[int]wkDQ16t14
	B *[]map[int]wkDQ16t14
	C *[]map[int]wkDQ16t14
}
type wkDQ16t16 struct {
	A *[]map[int]wkDQ16t15
	B *[]map[int]wkDQ16t15
	C *[]map[int]wkDQ16t15
}
type wkDQ40t0 struct{ A int }
type wkDQ40t1 struct {
	A *[]map[int]wkDQ40t0
	B *[]map[int]wkDQ40t0
	C *[]map[int]wkDQ40t0
}
type wkDQ40t2 struct {
	A *[]map[int]wkDQ40t1
	B *[]map[int]wkDQ40t1
	C *[]map[int]wkDQ40t1
}
type wkDQ40t3 struct {
	A *[]map[int]wkDQ40t2
	B *[]map[int]wkDQ40t2
	C *[]map[int]wkDQ40t2
}
type wkDQ40t4 struct {
	A *[]map[int]wkDQ40t3
	B *[]map[int]wkDQ40t3
	C *[]map[int]wkDQ40t3
}
type wkDQ40t5 struct {
	A *[]map[int]wkDQ40t4
	B *[]map[int]wkDQ40t4
	C *[]map[int]wkDQ40t4
}
type wkDQ40t6 struct {
	A *[]map[int]wkDQ40t5
	B *[]map[int]wkDQ40t5
	C *[]map[int]wkDQ40t5
}
type wkDQ40t7 struct {
	A *[]map[int]wkDQ40t6
	B *[]map[int]wkDQ40t6
	C *[]map[int]wkDQ40t6
}
type wkDQ40t8 struct {
	A *[]map[int]wkDQ40t7
	B *[]map[int]wkDQ40t7
	C *[]map[int]wkDQ40t7
}
type wkDQ40t9 struct {
	A *[]map[int]wkDQ40t8
	B *[]map[int]wkDQ40t8
	C *[]map[int]wkDQ40t8
}
type wkDQ40t10 struct {
	A *[]map[int]wkDQ40t9
	B *[]map[int]wkDQ40t9
	C *[]map[int]wkDQ40t9
}
type wkDQ40t11 struct {
	A *[]map[int]wkDQ40t10
	B *[]map[int]wkDQ40t10
	C *[]map[int]wkDQ40t10
}
type wkDQ40t12 struct {
	A *[]map[int]wkDQ40t11
	B *[]map[int]wkDQ40t11
	C *[]map[int]wkDQ40t11
}
type wkDQ40t13 struct {
	A *[]map[int]wkDQ40t12
	B *[]map[int]wkDQ40t12
	C *[]map[int]wkDQ40t12
}
type wkDQ40t14 struct {
	A *[]map[int]wkDQ40t13
	B *[]map[int]wkDQ40t13
	C *[]map[int]wkDQ40t13
}
type wkDQ40t15 struct {
	A *[]map[int]wkDQ40t14
	B *[]map[int]wkDQ40t14
	C *[]map[int]wkDQ40t14
}
type wkDQ40t16 struct {
	A *[]map[int]wkDQ40t15
	B *[]map[int]wkDQ40t15
	C *[]map[int]wkDQ40t15
}
type wkDQ40t17 struct {
	A *[]map[int]wkDQ40t16
	B *[]map[int]wkDQ40t16
	C *[]map[int]wkDQ40t16
}
type wkDQ40t18 struct {
	A *[]map[int]wkDQ40t17
	B *[]map[int]wkDQ40t17
	C *[]map[int]wkDQ40t17
}
type wkDQ40t19 struct {
	A *[]map[int]wkDQ40t18
	B *[]map[int]wkDQ40t18
	C *[]map[int]wkDQ40t18
}
type wkDQ40t20 struct {
	A *[]map[int]wkDQ40t19
	B *[]map[int]wkDQ40t19
	C *[]map[int]wkDQ40t19
}
type wkDQ40t21 struct {
	A *[]map[int]wkDQ40t20
	B *[]map[int]wkDQ40t20
	C *[]map[int]wkDQ40t20
}
type wkDQ40t22 struct {
	A *[]map[int]wkDQ40t21
	B *[]map[int]wkDQ40t21
	C *[]map[int]wkDQ40t21
}
type wkDQ40t23 struct {
	A *[]map[int]wkDQ40t22
	B *[]map[int]wkDQ40t22
	C *[]map[int]wkDQ40t22
}
type wkDQ40t24 struct {
	A *[]map[int]wkDQ40t23
	B *[]map[int]wkDQ40t23
	C *[]map[int]wkDQ40t23
}
type wkDQ40t25 struct {
	A *[]map[int]wkDQ40t24
	B *[]map[int]wkDQ40t24
	C *[]map[int]wkDQ40t24
}
type wkDQ40t26 struct {
	A *[]map[int]wkDQ40t25
	B *[]map[int]wkDQ40t25
	C *[]map[int]wkDQ40t25
}
type wkDQ40t27 struct {
	A *[]map[int]wkDQ40t26
	B *[]map[int]wkDQ40t26
	C *[]map[int]wkDQ40t26
}
type wkDQ40t28 struct {
	A *[]map[int]wkDQ40t27
	B *[]map[int]wkDQ40t27
	C *[]map[int]wkDQ40t27
}
type wkDQ40t29 struct {
	A *[]map[int]wkDQ40t28
	B *[]map[int]wkDQ40t28
	C *[]map[int]wkDQ40t28
}
type wkDQ40t30 struct {
	A *[]map[int]wkDQ40t29
	B *[]map[int]wkDQ40t29
	C *[]map[int]wkDQ40t29
}
type wkDQ40t31 struct {
	A *[]map[int]wkDQ40t30
	B *[]map[int]wkDQ40t30
	C *[]map[int]wkDQ40t30
}
type wkDQ40t32 struct {
	A *[]map[int]wkDQ40t31
	B *[]map[int]wkDQ40t31
	C *[]map[int]wkDQ40t31
}
type wkDQ40t33 struct {
	A *[]map[int]wkDQ40t32
	B *[]map[int]wkDQ40t32
	C *[]map[int]wkDQ40t32
}
type wkDQ40t34 struct {
	A *[]map[int]wkDQ40t33
	B *[]map[int]wkDQ40t33
	C *[]map[int]wkDQ40t33
}
type wkDQ40t35 struct {
	A *[]map[int]wkDQ40t34
	B *[]map[int]wkDQ40t34
	C *[]map[int]wkDQ40t34
}
type wkDQ40t36 struct {
	A *[]map[int]wkDQ40t35
	B *[]map[int]wkDQ40t35
	C *[]map[int]wkDQ40t35
}
type wkDQ40t37 struct {
	A *[]map[int]wkDQ40t36
	B *[]map[int]wkDQ40t36
	C *[]map[int]wkDQ40t36
}
type wkDQ40t38 struct {
	A *[]map[int]wkDQ40t37
	B *[]map[int]wkDQ40t37
	C *[]map[int]wkDQ40t37
}
type wkDQ40t39 struct {
	A *[]map[int]wkDQ40t38
	B *[]map[int]wkDQ40t38
	C *[]map[int]wkDQ40t38
}
type wkDQ40t40 struct {
	A *[]map[int]wkDQ40t39
	B *[]map[int]wkDQ40t39
	C *[]map[int]wkDQ40t39
}
type wkOQ8t0 struct {
	F1 *[]map[int]wkOQ8t1
	F2 *[]map[int]wkOQ8t2
	F3 *[]map[int]wkOQ8t3
	F4 *[]map[int]wkOQ8t4
	F5 *[]map[int]wkOQ8t5
	F6 *[]map[int]wkOQ8t6
	F7 *[]map[int]wkOQ8t7
}
type wkOQ8t1 struct {
	F2 *[]map[int]wkOQ8t2
	F3 *[]map[int]wkOQ8t3
	F4 *[]map[int]wkOQ8t4
	F5 *[]map[int]wkOQ8t5
	F6 *[]map[int]wkOQ8t6
	F7 *[]map[int]wkOQ8t7
}
type wkOQ8t2 struct {
	F3 *[]map[int]wkOQ8t3
	F4 *[]map[int]wkOQ8t4
	F5 *[]map[int]wkOQ8t5
	F6 *[]map[int]wkOQ8t6
	F7 *[]map[int]wkOQ8t7
}
type wkOQ8t3 struct {
	F4 *[]map[int]wkOQ8t4
	F5 *[]map[int]wkOQ8t5
	F6 *[]map[int]wkOQ8t6
	F7 *[]map[int]wkOQ8t7
}
type wkOQ8t4 struct {
	F5 *[]map[int]wkOQ8t5
	F6 *[]map[int]wkOQ8t6
	F7 *[]map[int]wkOQ8t7
}
type wkOQ8t5 struct {
	F6 *[]map[int]wkOQ8t6
	F7 *[]map[int]wkOQ8t7
}
type wkOQ8t6 struct{ F7 *[]map[int]wkOQ8t7 }
type wkOQ8t7 struct{ F0 *[]map[int]wkOQ8t0 }
type wkOQ16t0 struct {
	F1  *[]map[int]wkOQ16t1
	F2  *[]map[int]wkOQ16t2
	F3  *[]map[int]wkOQ16t3
	F4  *[]map[int]wkOQ16t4
	F5  *[]map[int]wkOQ16t5
	F6  *[]map[int]wkOQ16t6
	F7  *[]map[int]wkOQ16t7
	F8  *[]map[int]wkOQ16t8
	F9  *[]map[int]wkOQ16t9
	F10 *[]map[int]wkOQ16t10
	F11 *[]map[int]wkOQ16t11
	F12 *[]map[int]wkOQ16t12
	F13 *[]map[int]wkOQ16t13
	F14 *[]map[int]wkOQ16t14
	F15 *[]map[int]wkOQ16t15
}
type wkOQ16t1 struct {
	F2  *[]map[int]wkOQ16t2
	F3  *[]map[int]wkOQ16t3
	F4  *[]map[int]wkOQ16t4
	F5  *[]map[int]wkOQ16t5
	F6  *[]map[int]wkOQ16t6
	F7  *[]map[int]wkOQ16t7
	F8  *[]map[int]wkOQ16t8
	F9  *[]map[int]wkOQ16t9
	F10 *[]map[int]wkOQ16t10
	F11 *[]map[int]wkOQ16t11
	F12 *[]map[int]wkOQ16t12
	F13 *[]map[int]wkOQ16t13
	F14 *[]map[int]wkOQ16t14
	F15 *[]map[int]wkOQ16t15
}
type wkOQ16t2 struct {
	F3  *[]map[int]wkOQ16t3
	F4  *[]map[int]wkOQ16t4
	F5  *[]map[int]wkOQ16t5
	F6  *[]map[int]wkOQ16t6
	F7  *[]map[int]wkOQ16t7
	F8  *[]map[int]wkOQ16t8
	F9  *[]map[int]wkOQ16t9
	F10 *[]map[int]wkOQ16t10
	F11 *[]map[int]wkOQ16t11
	F12 *[]map[int]wkOQ16t12
	F13 *[]map[int]wkOQ16t13
	F14 *[]map[int]wkOQ16t14
	F15 *[]map[int]wkOQ16t15
}
type wkOQ16t3 struct {
	F4  *[]map[int]wkOQ16t4
	F5  *[]map[int]wkOQ16t5
	F6  *[]map[int]wkOQ16t6
	F7  *[]map[int]wkOQ16t7
	F8  *[]map[int]wkOQ16t8
	F9  *[]map[int]wkOQ16t9
	F10 *[]map[int]wkOQ16t10
	F11 *[]map[int]wkOQ16t11
	F12 *[]map[int]wkOQ16t12
	F13 *[]map[int]wkOQ16t13
	F14 *[]map[int]wkOQ16t14
	F15 *[]map[int]wkOQ16t15
}
type wkOQ16t4 struct {
	F5  *[]map[int]wkOQ16t5
	F6  *[]map[int]wkOQ16t6
	F7  *[]map[int]wkOQ16t7
	F8  *[]map[int]wkOQ16t8
	F9  *[]map[int]wkOQ16t9
	F10 *[]map[int]wkOQ16t10
	F11 *[]map[int]wkOQ16t11
	F12 *[]map[int]wkOQ16t12
	F13 *[]map[int]wkOQ16t13
	F14 *[]map[int]wkOQ16t14
	F15 *[]map[int]wkOQ16t15
}
type wkOQ16t5 struct {
	F6  *[]map[int]wkOQ16t6
	F7  *[]map[int]wkOQ16t7
	F8  *[]map[int]wkOQ16t8
	F9  *[]map[int]wkOQ16t9
	F10 *[]map[int]wkOQ16t10
	F11 *[]map[int]wkOQ16t11
	F12 *[]map[int]wkOQ16t12
	F13 *[]map[int]wkOQ16t13
	F14 *[]map[int]wkOQ16t14
	F15 *[]map[int]wkOQ16t15
}
type wkOQ16t6 struct {
	F7  *[]map[int]wkOQ16t7
	F8  *[]map[int]wkOQ16t8
	F9  *[]map[int]wkOQ16t9
	F10 *[]map[int]wkOQ16t10
	F11 *[]map[int]wkOQ16t11
	F12 *[]map[int]wkOQ16t12
	F13 *[]map[int]wkOQ16t13
	F14 *[]map[int]wkOQ16t14
	F15 *[]map[int]wkOQ16t15
}
type wkOQ16t7 struct {
	F8  *[]map[int]wkOQ16t8
	F9  *[]map[int]wkOQ16t9
	F10 *[]map[int]wkOQ16t10
	F11 *[]map[int]wkOQ16t11
	F12 *[]map[int]wkOQ16t12
	F13 *[]map[int]wkOQ16t13
	F14 *[]map[int]wkOQ16t14
	F15 *[]map[int]wkOQ16t15
}
type wkOQ16t8 struct {
	F9  *[]map[int]wkOQ16t9
	F10 *[]map[int]wkOQ16t10
	F11 *[]map[int]wkOQ16t11
	F12 *[]map[int]wkOQ16t12
	F13 *[]map[int]wkOQ16t13
	F14 *[]map[int]wkOQ16t14
	F15 *[]map[int]wkOQ16t15
}
type wkOQ16t9 struct {
	F10 *[]map[int]wkOQ16t10
	F11 *[]map[int]wkOQ16t11
	F12 *[]map[int]wkOQ16t12
	F13 *[]map[int]wkOQ16t13
	F14 *[]map[int]wkOQ16t14
	F15 *[]map[int]wkOQ16t15
}
type wkOQ16t10 struct {
	F11 *[]map[int]wkOQ16t11
	F12 *[]map[int]wkOQ16t12
	F13 *[]map[int]wkOQ16t13
	F14 *[]map[int]wkOQ16t14
	F15 *[]map[int]wkOQ16t15
}
type wkOQ16t11 struct {
	F12 *[]map[int]wkOQ16t12
	F13 *[]map[int]wkOQ16t13
	F14 *[]map[int]wkOQ16t14
	F15 *[]map[int]wkOQ16t15
}
type wkOQ16t12 struct {
	F13 *[]map[int]wkOQ16t13
	F14 *[]map[int]wkOQ16t14
	F15 *[]map[int]wkOQ16t15
}
type wkOQ16t13 struct {
	F14 *[]map[int]wkOQ16t14
	F15 *[]map[int]wkOQ16t15
}
type wkOQ16t14 struct{ F15 *[]map[int]wkOQ16t15 }
type wkOQ16t15 struct{ F0 *[]map[int]wkOQ16t0 }
type wkOQ20t0 struct {
	F1  *[]map[int]wkOQ20t1
	F2  *[]map[int]wkOQ20t2
	F3  *[]map[int]wkOQ20t3
	F4  *[]map[int]wkOQ20t4
	F5  *[]map[int]wkOQ20t5
	F6  *[]map[int]wkOQ20t6
	F7  *[]map[int]wkOQ20t7
	F8  *[]map[int]wkOQ20t8
	F9  *[]map[int]wkOQ20t9
	F10 *[]map[int]wkOQ20t10
	F11 *[]map[int]wkOQ20t11
	F12 *[]map[int]wkOQ20t12
	F13 *[]map[int]wkOQ20t13
	F14 *[]map[int]wkOQ20t14
	F15 *[]map[int]wkOQ20t15
	F16 *[]map[int]wkOQ20t16
	F17 *[]map[int]wkOQ20t17
	F18 *[]map[int]wkOQ20t18
	F19 *[]map[int]wkOQ20t19
}
type wkOQ20t1 struct {
	F2  *[]map[int]wkOQ20t2
	F3  *[]map[int]wkOQ20t3
	F4  *[]map[int]wkOQ20t4
	F5  *[]map[int]wkOQ20t5
	F6  *[]map[int]wkOQ20t6
	F7  *[]map[int]wkOQ20t7
	F8  *[]map[int]wkOQ20t8
	F9  *[]map[int]wkOQ20t9
	F10 *[]map[int]wkOQ20t10
	F11 *[]map[int]wkOQ20t11
	F12 *[]map[int]wkOQ20t12
	F13 *[]map[int]wkOQ20t13
	F14 *[]map[int]wkOQ20t14
	F15 *[]map[int]wkOQ20t15
	F16 *[]map[int]wkOQ20t16
	F17 *[]map[int]wkOQ20t17
	F18 *[]map[int]wkOQ20t18
	F19 *[]map[int]wkOQ20t19
}
type wkOQ20t2 struct {
	F3  *[]map[int]wkOQ20t3
	F4  *[]map[int]wkOQ20t4
	F5  *[]map[int]wkOQ20t5
	F6  *[]map[int]wkOQ20t6
	F7  *[]map[int]wkOQ20t7
	F8  *[]map[int]wkOQ20t8
	F9  *[]map[int]wkOQ20t9
	F10 *[]map[int]wkOQ20t10
	F11 *[]map[int]wkOQ20t11
	F12 *[]map[int]wkOQ20t12
	F13 *[]map[int]wkOQ20t13
	F14 *[]map[int]wkOQ20t14
	F15 *[]map[int]wkOQ20t15
	F16 *[]map[int]wkOQ20t16
	F17 *[]map[int]wkOQ20t17
	F18 *[]map[int]wkOQ20t18
	F19 *[]map[int]wkOQ20t19
}
type wkOQ20t3 struct {
	F4  *[]map[int]wkOQ20t4
	F5  *[]map[int]wkOQ20t5
	F6  *[]map[int]wkOQ20t6
	F7  *[]map[int]wkOQ20t7
	F8  *[]map[int]wkOQ20t8
	F9  *[]map[int]wkOQ20t9
	F10 *[]map[int]wkOQ20t10
	F11 *[]map[int]wkOQ20t11
	F12 *[]map[int]wkOQ20t12
	F13 *[]map[int]wkOQ20t13
	F14 *[]map[int]wkOQ20t14
	F15 *[]map[int]wkOQ20t15
	F16 *[]map[int]wkOQ20t16
	F17 *[]map[int]wkOQ20t17
	F18 *[]map[int]wkOQ20t18
	F19 *[]map[int]wkOQ20t19
}
type wkOQ20t4 struct {
	F5  *[]map[int]wkOQ20t5
	F6  *[]map[int]wkOQ20t6
	F7  *[]map[int]wkOQ20t7
	F8  *[]map[int]wkOQ20t8
	F9  *[]map[int]wkOQ20t9
	F10 *[]map[int]wkOQ20t10
	F11 *[]map[int]wkOQ20t11
	F12 *[]map[int]wkOQ20t12
	F13 *[]map[int]wkOQ20t13
	F14 *[]map[int]wkOQ20t14
	F15 *[]map[int]wkOQ20t15
	F16 *[]map[int]wkOQ20t16
	F17 *[]map[int]wkOQ20t17
	F18 *[]map[int]wkOQ20t18
	F19 *[]map[int]wkOQ20t19
}
type wkOQ20t5 struct {
	F6  *[]map[int]wkOQ20t6
	F7  *[]map[int]wkOQ20t7
	F8  *[]map[int]wkOQ20t8
	F9  *[]map[int]wkOQ20t9
	F10 *[]map[int]wkOQ20t10
	F11 *[]map[int]wkOQ20t11
	F12 *[]map[int]wkOQ20t12
	F13 *[]map[int]wkOQ20t13
	F14 *[]map[int]wkOQ20t14
	F15 *[]map[int]wkOQ20t15
	F16 *[]map[int]wkOQ20t16
	F17 *[]map[int]wkOQ20t17
	F18 *[]map[int]wkOQ20t18
	F19 *[]map[int]wkOQ20t19
}
type wkOQ20t6 struct {
	F7  *[]map[int]wkOQ20t7
	F8  *[]map[int]wkOQ20t8
	F9  *[]map[int]wkOQ20t9
	F10 *[]map[int]wkOQ20t10
	F11 *[]map[int]wkOQ20t11
	F12 *[]map[int]wkOQ20t12
	F13 *[]map[int]wkOQ20t13
	F14 *[]map[int]wkOQ20t14
	F15 *[]map[int]wkOQ20t15
	F16 *[]map[int]wkOQ20t16
	F17 *[]map[int]wkOQ20t17
	F18 *[]map[int]wkOQ20t18
	F19 *[]map[int]wkOQ20t19
}
type wkOQ20t7 struct {
	F8  *[]map[int]wkOQ20t8
	F9  *[]map[int]wkOQ20t9
	F10 *[]map[int]wkOQ20t10
	F11 *[]map[int]wkOQ20t11
	F12 *[]map[int]wkOQ20t12
	F13 *[]map[int]wkOQ20t13
	F14 *[]map[int]wkOQ20t14
	F15 *[]map[int]wkOQ20t15
	F16 *[]map[int]wkOQ20t16
	F17 *[]map[int]wkOQ20t17
	F18 *[]map[int]wkOQ20t18
	F19 *[]map[int]wkOQ20t19
}
type wkOQ20t8 struct {
	F9  *[]map[int]wkOQ20t9
	F10 *[]map[int]wkOQ20t10
	F11 *[]map[int]wkOQ20t11
	F12 *[]map[int]wkOQ20t12
	F13 *[]map[int]wkOQ20t13
	F14 *[]map[int]wkOQ20t14
	F15 *[]map[int]wkOQ20t15
	F16 *[]map[int]wkOQ20t16
	F17 *[]map[int]wkOQ20t17
	F18 *[]map[int]wkOQ20t18
	F19 *[]map[int]wkOQ20t19
}
type wkOQ20t9 struct {
	F10 *[]map[int]wkOQ20t10
	F11 *[]map[int]wkOQ20t11
	F12 *[]map[int]wkOQ20t12
	F13 *[]map[int]wkOQ20t13
	F14 *[]map[int]wkOQ20t14
	F15 *[]map[int]wkOQ20t15
	F16 *[]map[int]wkOQ20t16
	F17 *[]map[int]wkOQ20t17
	F18 *[]map[int]wkOQ20t18
	F19 *[]map[int]wkOQ20t19
}
type wkOQ20t10 struct {
	F11 *[]map[int]wkOQ20t11
	F12 *[]map[int]wkOQ20t12
	F13 *[]map[int]wkOQ20t13
	F14 *[]map[int]wkOQ20t14
	F15 *[]map[int]wkOQ20t15
	F16 *[]map[int]wkOQ20t16
	F17 *[]map[int]wkOQ20t17
	F18 *[]map[int]wkOQ20t18
	F19 *[]map[int]wkOQ20t19
}
type wkOQ20t11 struct {
	F12 *[]map[int]wkOQ20t12
	F13 *[]map[int]wkOQ20t13
	F14 *[]map[int]wkOQ20t14
	F15 *[]map[int]wkOQ20t15
	F16 *[]map[int]wkOQ20t16
	F17 *[]map[int]wkOQ20t17
	F18 *[]map[int]wkOQ20t18
	F19 *[]map[int]wkOQ20t19
}
type wkOQ20t12 struct {
	F13 *[]map[int]wkOQ20t13
	F14 *[]map[int]wkOQ20t14
	F15 *[]map[int]wkOQ20t15
	F16 *[]map[int]wkOQ20t16
	F17 *[]map[int]wkOQ20t17
	F18 *[]map[int]wkOQ20t18
	F19 *[]map[int]wkOQ20t19
}
type wkOQ20t13 struct {
	F14 *[]map[int]wkOQ20t14
	F15 *[]map[int]wkOQ20t15
	F16 *[]map[int]wkOQ20t16
	F17 *[]map[int]wkOQ20t17
	F18 *[]map[int]wkOQ20t18
	F19 *[]map[int]wkOQ20t19
}
type wkOQ20t14 struct {
	F15 *[]map[int]wkOQ20t15
	F16 *[]map[int]wkOQ20t16
	F17 *[]map[int]wkOQ20t17
	F18 *[]map[int]wkOQ20t18
	F19 *[]map[int]wkOQ20t19
}
type wkOQ20t15 struct {
	F16 *[]map[int]wkOQ20t16
	F17 *[]map[int]wkOQ20t17
	F18 *[]map[int]wkOQ20t18
	F19 *[]map[int]wkOQ20t19
}
type wkOQ20t16 struct {
	F17 *[]map[int]wkOQ20t17
	F18 *[]map[int]wkOQ20t18
	F19 *[]map[int]wkOQ20t19
}
type wkOQ20t17 struct {
	F18 *[]map[int]wkOQ20t18
	F19 *[]map[int]wkOQ20t19
}
type wkOQ20t18 struct{ F19 *[]map[int]wkOQ20t19 }
type wkOQ20t19 struct{ F0 *[]map[int]wkOQ20t0 }
type wkOQ24t0 struct {
	F1  *[]map[int]wkOQ24t1
	F2  *[]map[int]wkOQ24t2
	F3  *[]map[int]wkOQ24t3
	F4  *[]map[int]wkOQ24t4
	F5  *[]map[int]wkOQ24t5
	F6  *[]map[int]wkOQ24t6
	F7  *[]map[int]wkOQ24t7
	F8  *[]map[int]wkOQ24t8
	F9  *[]map[int]wkOQ24t9
	F10 *[]map[int]wkOQ24t10
	F11 *[]map[int]wkOQ24t11
	F12 *[]map[int]wkOQ24t12
	F13 *[]map[int]wkOQ24t13
	F14 *[]map[int]wkOQ24t14
	F15 *[]map[int]wkOQ24t15
	F16 *[]map[int]wkOQ24t16
	F17 *[]map[int]wkOQ24t17
	F18 *[]map[int]wkOQ24t18
	F19 *[]map[int]wkOQ24t19
	F20 *[]map[int]wkOQ24t20
	F21 *[]map[int]wkOQ24t21
	F22 *[]map[int]wkOQ24t22
	F23 *[]map[int]wkOQ24t23
}
type wkOQ24t1 struct {
	F2  *[]map[int]wkOQ24t2
	F3  *[]map[int]wkOQ24t3
	F4  *[]map[int]wkOQ24t4
	F5  *[]map[int]wkOQ24t5
	F6  *[]map[int]wkOQ24t6
	F7  *[]map[int]wkOQ24t7
	F8  *[]map[int]wkOQ24t8
	F9  *[]map[int]wkOQ24t9
	F10 *[]map[int]wkOQ24t10
	F11 *[]map[int]wkOQ24t11
	F12 *[]map[int]wkOQ24t12
	F13 *[]map[int]wkOQ24t13
	F14 *[]map[int]wkOQ24t14
	F15 *[]map[int]wkOQ24t15
	F16 *[]map[int]wkOQ24t16
	F17 *[]map[int]wkOQ24t17
	F18 *[]map[int]wkOQ24t18
	F19 *[]map[int]wkOQ24t19
	F20 *[]map[int]wkOQ24t20
	F21 *[]map[int]wkOQ24t21
	F22 *[]map[int]wkOQ24t22
	F23 *[]map[int]wkOQ24t23
}
type wkOQ24t2 struct {
	F3  *[]map[int]wkOQ24t3
	F4  *[]map[int]wkOQ24t4
	F5  *[]map[int]wkOQ24t5
	F6  *[]map[int]wkOQ24t6
	F7  *[]map[int]wkOQ24t7
	F8  *[]map[int]wkOQ24t8
	F9  *[]map[int]wkOQ24t9
	F10 *[]map[int]wkOQ24t10
	F11 *[]map[int]wkOQ24t11
	F12 *[]map[int]wkOQ24t12
	F13 *[]map[int]wkOQ24t13
	F14 *[]map[int]wkOQ24t14
	F15 *[]map[int]wkOQ24t15
	F16 *[]map[int]wkOQ24t16
	F17 *[]map[int]wkOQ24t17
	F18 *[]map[int]wkOQ24t18
	F19 *[]map[int]wkOQ24t19
	F20 *[]map[int]wkOQ24t20
	F21 *[]map[int]wkOQ24t21
	F22 *[]map[int]wkOQ24t22
	F23 *[]map[int]wkOQ24t23
}
type wkOQ24t3 struct {
	F4  *[]map[int]wkOQ24t4
	F5  *[]map[int]wkOQ24t5
	F6  *[]map[int]wkOQ24t6
	F7  *[]map[int]wkOQ24t7
	F8  *[]map[int]wkOQ24t8
	F9  *[]map[int]wkOQ24t9
	F10 *[]map[int]wkOQ24t10
	F11 *[]map[int]wkOQ24t11
	F12 *[]map[int]wkOQ24t12
	F13 *[]map[int]wkOQ24t13
	F14 *[]map[int]wkOQ24t14
	F15 *[]map[int]wkOQ24t15
	F16 *[]map[int]wkOQ24t16
	F17 *[]map[int]wkOQ24t17
	F18 *[]map[int]wkOQ24t18
	F19 *[]map[int]wkOQ24t19
	F20 *[]map[int]wkOQ24t20
	F21 *[]map[int]wkOQ24t21
	F22 *[]map[int]wkOQ24t22
	F23 *[]map[int]wkOQ24t23
}
type wkOQ24t4 struct {
	F5  *[]map[int]wkOQ24t5
	F6  *[]map[int]wkOQ24t6
	F7  *[]map[int]wkOQ24t7
	F8  *[]map[int]wkOQ24t8
	F9  *[]map[int]wkOQ24t9
	F10 *[]map[int]wkOQ24t10
	F11 *[]map[int]wkOQ24t11
	F12 *[]map[int]wkOQ24t12
	F13 *[]map[int]wkOQ24t13
	F14 *[]map[int]wkOQ24t14
	F15 *[]map[int]wkOQ24t15
	F16 *[]map[int]wkOQ24t16
	F17 *[]map[int]wkOQ24t17
	F18 *[]map[int]wkOQ24t18
	F19 *[]map[int]wkOQ24t19
	F20 *[]map[int]wkOQ24t20
	F21 *[]map[int]wkOQ24t21
	F22 *[]map[int]wkOQ24t22
	F23 *[]map[int]wkOQ24t23
}
type wkOQ24t5 struct {
	F6  *[]map[int]wkOQ24t6
	F7  *[]map[int]wkOQ24t7
	F8  *[]map[int]wkOQ24t8
	F9  *[]map[int]wkOQ24t9
	F10 *[]map[int]wkOQ24t10
	F11 *[]map[int]wkOQ24t11
	F12 *[]map[int]wkOQ24t12
	F13 *[]map[int]wkOQ24t13
	F14 *[]map[int]wkOQ24t14
	F15 *[]map[int]wkOQ24t15
	F16 *[]map[int]wkOQ24t16
	F17 *[]map[int]wkOQ24t17
	F18 *[]map[int]wkOQ24t18
	F19 *[]map[int]wkOQ24t19
	F20 *[]map[int]wkOQ24t20
	F21 *[]map[int]wkOQ24t21
	F22 *[]map[int]wkOQ24t22
	F23 *[]map[int]wkOQ24t23
}
type wkOQ24t6 struct {
	F7  *[]map[int]wkOQ24t7
	F8  *[]map[int]wkOQ24t8
	F9  *[]map[int]wkOQ24t9
	F10 *[]map[int]wkOQ24t10
	F11 *[]map[int]wkOQ24t11
	F12 *[]map[int]wkOQ24t12
	F13 *[]map[int]wkOQ24t13
	F14 *[]map[int]wkOQ24t14
	F15 *[]map[int]wkOQ24t15
	F16 *[]map[int]wkOQ24t16
	F17 *[]map[int]wkOQ24t17
	F18 *[]map[int]wkOQ24t18
	F19 *[]map[int]wkOQ24t19
	F20 *[]map[int]wkOQ24t20
	F21 *[]map[int]wkOQ24t21
	F22 *[]map[int]wkOQ24t22
	F23 *[]map[int]wkOQ24t23
}
type wkOQ24t7 struct {
	F8  *[]map[int]wkOQ24t8
	F9  *[]map[int]wkOQ24t9
	F10 *[]map[int]wkOQ24t10
	F11 *[]map[int]wkOQ24t11
	F12 *[]map[int]wkOQ24t12
	F13 *[]map[int]wkOQ24t13
	F14 *[]map[int]wkOQ24t14
	F15 *[]map[int]wkOQ24t15
	F16 *[]map[int]wkOQ24t16
	F17 *[]map[int]wkOQ24t17
	F18 *[]map[int]wkOQ24t18
	F19 *[]map[int]wkOQ24t19
	F20 *[]map[int]wkOQ24t20
	F21 *[]map[int]wkOQ24t21
	F22 *[]map[int]wkOQ24t22
	F23 *[]map[int]wkOQ24t23
}
type wkOQ24t8 struct {
	F9  *[]map[int]wkOQ24t9
	F10 *[]map[int]wkOQ24t10
	F11 *[]map[int]wkOQ24t11
	F12 *[]map[int]wkOQ24t12
	F13 *[]map[int]wkOQ24t13
	F14 *[]map[int]wkOQ24t14
	F15 *[]map[int]wkOQ24t15
	F16 *[]map[int]wkOQ24t16
	F17 *[]map[int]wkOQ24t17
	F18 *[]map[int]wkOQ24t18
	F19 *[]map[int]wkOQ24t19
	F20 *[]map[int]wkOQ24t20
	F21 *[]map[int]wkOQ24t21
	F22 *[]map[int]wkOQ24t22
	F23 *[]map[int]wkOQ24t23
}
type wkOQ24t9 struct {
	F10 *[]map[int]wkOQ24t10
	F11 *[]map[int]wkOQ24t11
	F12 *[]map[int]wkOQ24t12
	F13 *[]map[int]wkOQ24t13
	F14 *[]map[int]wkOQ24t14
	F15 *[]map[int]wkOQ24t15
	F16 *[]map[int]wkOQ24t16
	F17 *[]map[int]wkOQ24t17
	F18 *[]map[int]wkOQ24t18
	F19 *[]map[int]wkOQ24t19
	F20 *[]map[int]wkOQ24t20
	F21 *[]map[int]wkOQ24t21
	F22 *[]map[int]wkOQ24t22
	F23 *[]map[int]wkOQ24t23
}
type wkOQ24t10 struct {
	F11 *[]map[int]wkOQ24t11
	F12 *[]map[int]wkOQ24t12
	F13 *[]map[int]wkOQ24t13
	F14 *[]map[int]wkOQ24t14
	F15 *[]map[int]wkOQ24t15
	F16 *[]map[int]wkOQ24t16
	F17 *[]map[int]wkOQ24t17
	F18 *[]map[int]wkOQ24t18
	F19 *[]map[int]wkOQ24t19
	F20 *[]map[int]wkOQ24t20
	F21 *[]map[int]wkOQ24t21
	F22 *[]map[int]wkOQ24t22
	F23 *[]map[int]wkOQ24t23
}
type wkOQ24t11 struct {
	F12 *[]map[int]wkOQ24t12
	F13 *[]map[int]wkOQ24t13
	F14 *[]map[int]wkOQ24t14
	F15 *[]map[int]wkOQ24t15
	F16 *[]map[int]wkOQ24t16
	F17 *[]map[int]wkOQ24t17
	F18 *[]map[int]wkOQ24t18
	F19 *[]map[int]wkOQ24t19
	F20 *[]map[int]wkOQ24t20
	F21 *[]map[int]wkOQ24t21
	F22 *[]map[int]wkOQ24t22
	F23 *[]map[int]wkOQ24t23
}
type wkOQ24t12 struct {
	F13 *[]map[int]wkOQ24t13
	F14 *[]map[int]wkOQ24t14
	F15 *[]map[int]wkOQ24t15
	F16 *[]map[int]wkOQ24t16
	F17 *[]map[int]wkOQ24t17
	F18 *[]map[int]wkOQ24t18
	F19 *[]map[int]wkOQ24t19
	F20 *[]map[int]wkOQ24t20
	F21 *[]map[int]wkOQ24t21
	F22 *[]map[int]wkOQ24t22
	F23 *[]map[int]wkOQ24t23
}
type wkOQ24t13 struct {
	F14 *[]map[int]wkOQ24t14
	F15 *[]map[int]wkOQ24t15
	F16 *[]map[int]wkOQ24t16
	F17 *[]map[int]wkOQ24t17
	F18 *[]map[int]wkOQ24t18
	F19 *[]map[int]wkOQ24t19
	F20 *[]map[int]wkOQ24t20
	F21 *[]map[int]wkOQ24t21
	F22 *[]map[int]wkOQ24t22
	F23 *[]map[int]wkOQ24t23
}
type wkOQ24t14 struct {
	F15 *[]map[int]wkOQ24t15
	F16 *[]map[int]wkOQ24t16
	F17 *[]map[int]wkOQ24t17
	F18 *[]map[int]wkOQ24t18
	F19 *[]map[int]wkOQ24t19
	F20 *[]map[int]wkOQ24t20
	F21 *[]map[int]wkOQ24t21
	F22 *[]map[int]wkOQ24t22
	F23 *[]map[int]wkOQ24t23
}
type wkOQ24t15 struct {
	F16 *[]map[int]wkOQ24t16
	F17 *[]map[int]wkOQ24t17
	F18 *[]map[int]wkOQ24t18
	F19 *[]map[int]wkOQ24t19
	F20 *[]map[int]wkOQ24t20
	F21 *[]map[int]wkOQ24t21
	F22 *[]map[int]wkOQ24t22
	F23 *[]map[int]wkOQ24t23
}
type wkOQ24t16 struct {
	F17 *[]map[int]wkOQ24t17
	F18 *[]map[int]wkOQ24t18
	F19 *[]map[int]wkOQ24t19
	F20 *[]map[int]wkOQ24t20
	F21 *[]map[int]wkOQ24t21
	F22 *[]map[int]wkOQ24t22
	F23 *[]map[int]wkOQ24t23
}
type wkOQ24t17 struct {
	F18 *[]map[int]wkOQ24t18
	F19 *[]map[int]wkOQ24t19
	F20 *[]map[int]wkOQ24t20
	F21 *[]map[int]wkOQ24t21
	F22 *[]map[int]wkOQ24t22
	F23 *[]map[int]wkOQ24t23
}
type wkOQ24t18 struct {
	F19 *[]map[int]wkOQ24t19
	F20 *[]map[int]wkOQ24t20
	F21 *[]map[int]wkOQ24t21
	F22 *[]map[int]wkOQ24t22
	F23 *[]map[int]wkOQ24t23
}
type wkOQ24t19 struct {
	F20 *[]map[int]wkOQ24t20
	F21 *[]map[int]wkOQ24t21
	F22 *[]map[int]wkOQ24t22
	F23 *[]map[int]wkOQ24t23
}
type wkOQ24t20 struct {
	F21 *[]map[int]wkOQ24t21
	F22 *[]map[int]wkOQ24t22
	F23 *[]map[int]wkOQ24t23
}
type wkOQ24t21 struct {
	F22 *[]map[int]wkOQ24t22
	F23 *[]map[int]wkOQ24t23
}
type wkOQ24t22 struct{ F23 *[]map[int]wkOQ24t23 }
type wkOQ24t23 struct{ F0 *[]map[int]wkOQ24t0 }
type wkOQ40t0 struct {
	F1  *[]map[int]wkOQ40t1
	F2  *[]map[int]wkOQ40t2
	F3  *[]map[int]wkOQ40t3
	F4  *[]map[int]wkOQ40t4
	F5  *[]map[int]wkOQ40t5
	F6  *[]map[int]wkOQ40t6
	F7  *[]map[int]wkOQ40t7
	F8  *[]map[int]wkOQ40t8
	F9  *[]map[int]wkOQ40t9
	F10 *[]map[int]wkOQ40t10
	F11 *[]map[int]wkOQ40t11
	F12 *[]map[int]wkOQ40t12
	F13 *[]map[int]wkOQ40t13
	F14 *[]map[int]wkOQ40t14
	F15 *[]map[int]wkOQ40t15
	F16 *[]map[int]wkOQ40t16
	F17 *[]map[int]wkOQ40t17
	F18 *[]map[int]wkOQ40t18
	F19 *[]map[int]wkOQ40t19
	F20 *[]map[int]wkOQ40t20
	F21 *[]map[int]wkOQ40t21
	F22 *[]map[int]wkOQ40t22
	F23 *[]map[int]wkOQ40t23
	F24 *[]map[int]wkOQ40t24
	F25 *[]map[int]wkOQ40t25
	F26 *[]map[int]wkOQ40t26
	F27 *[]map[int]wkOQ40t27
	F28 *[]map[int]wkOQ40t28
	F29 *[]map[int]wkOQ40t29
	F30 *[]map[int]wkOQ40t30
	F31 *[]map[int]wkOQ40t31
	F32 *[]map[int]wkOQ40t32
	F33 *[]map[int]wkOQ40t33
	F34 *[]map[int]wkOQ40t34
	F35 *[]map[int]wkOQ40t35
	F36 *[]map[int]wkOQ40t36
	F37 *[]map[int]wkOQ40t37
	F38 *[]map[int]wkOQ40t38
	F39 *[]map[int]wkOQ40t39
}
type wkOQ40t1 struct {
	F2  *[]map[int]wkOQ40t2
	F3  *[]map[int]wkOQ40t3
	F4  *[]map[int]wkOQ40t4
	F5  *[]map[int]wkOQ40t5
	F6  *[]map[int]wkOQ40t6
	F7  *[]map[int]wkOQ40t7
	F8  *[]map[int]wkOQ40t8
	F9  *[]map[int]wkOQ40t9
	F10 *[]map[int]wkOQ40t10
	F11 *[]map[int]wkOQ40t11
	F12 *[]map[int]wkOQ40t12
	F13 *[]map[int]wkOQ40t13
	F14 *[]map[int]wkOQ40t14
	F15 *[]map[int]wkOQ40t15
	F16 *[]map[int]wkOQ40t16
	F17 *[]map[int]wkOQ40t17
	F18 *[]map[int]wkOQ40t18
	F19 *[]map[int]wkOQ40t19
	F20 *[]map[int]wkOQ40t20
	F21 *[]map[int]wkOQ40t21
	F22 *[]map[int]wkOQ40t22
	F23 *[]map[int]wkOQ40t23
	F24 *[]map[int]wkOQ40t24
	F25 *[]map[int]wkOQ40t25
	F26 *[]map[int]wkOQ40t26
	F27 *[]map[int]wkOQ40t27
	F28 *[]map[int]wkOQ40t28
	F29 *[]map[int]wkOQ40t29
	F30 *[]map[int]wkOQ40t30
	F31 *[]map[int]wkOQ40t31
	F32 *[]map[int]wkOQ40t32
	F33 *[]map[int]wkOQ40t33
	F34 *[]map[int]wkOQ40t34
	F35 *[]map[int]wkOQ40t35
	F36 *[]map[int]wkOQ40t36
	F37 *[]map[int]wkOQ40t37
	F38 *[]map[int]wkOQ40t38
	F39 *[]map[int]wkOQ40t39
}
type wkOQ40t2 struct {
	F3  *[]map[int]wkOQ40t3
	F4  *[]map[int]wkOQ40t4
	F5  *[]map[int]wkOQ40t5
	F6  *[]map[int]wkOQ40t6
	F7  *[]map[int]wkOQ40t7
	F8  *[]map[int]wkOQ40t8
	F9  *[]map[int]wkOQ40t9
	F10 *[]map[int]wkOQ40t10
	F11 *[]map[int]wkOQ40t11
	F12 *[]map[int]wkOQ40t12
	F13 *[]map[int]wkOQ40t13
	F14 *[]map[int]wkOQ40t14
	F15 *[]map[int]wkOQ40t15
	F16 *[]map[int]wkOQ40t16
	F17 *[]map[int]wkOQ40t17
	F18 *[]map[int]wkOQ40t18
	F19 *[]map[int]wkOQ40t19
	F20 *[]map[int]wkOQ40t20
	F21 *[]map[int]wkOQ40t21
	F22 *[]map[int]wkOQ40t22
	F23 *[]map[int]wkOQ40t23
	F24 *[]map[int]wkOQ40t24
	F25 *[]map[int]wkOQ40t25
	F26 *[]map[int]wkOQ40t26
	F27 *[]map[int]wkOQ40t27
	F28 *[]map[int]wkOQ40t28
	F29 *[]map[int]wkOQ40t29
	F30 *[]map[int]wkOQ40t30
	F31 *[]map[int]wkOQ40t31
	F32 *[]map[int]wkOQ40t32
	F33 *[]map[int]wkOQ40t33
	F34 *[]map[int]wkOQ40t34
	F35 *[]map[int]wkOQ40t35
	F36 *[]map[int]wkOQ40t36
	F37 *[]map[int]wkOQ40t37
	F38 *[]map[int]wkOQ40t38
	F39 *[]map[int]wkOQ40t39
}
type wkOQ40t3 struct {
	F4  *[]map[int]wkOQ40t4
	F5  *[]map[int]wkOQ40t5
	F6  *[]map[int]wkOQ40t6
	F7  *[]map[int]wkOQ40t7
	F8  *[]map[int]wkOQ40t8
	F9  *[]map[int]wkOQ40t9
	F10 *[]map[int]wkOQ40t10
	F11 *[]map[int]wkOQ40t11
	F12 *[]map[int]wkOQ40t12
	F13 *[]map[int]wkOQ40t13
	F14 *[]map[int]wkOQ40t14
	F15 *[]map[int]wkOQ40t15
	F16 *[]map[int]wkOQ40t16
	F17 *[]map[int]wkOQ40t17
	F18 *[]map[int]wkOQ40t18
	F19 *[]map[int]wkOQ40t19
	F20 *[]map[int]wkOQ40t20
	F21 *[]map[int]wkOQ40t21
	F22 *[]map[int]wkOQ40t22
	F23 *[]map[int]wkOQ40t23
	F24 *[]map[int]wkOQ40t24
	F25 *[]map[int]wkOQ40t25
	F26 *[]map[int]wkOQ40t26
	F27 *[]map[int]wkOQ40t27
	F28 *[]map[int]wkOQ40t28
	F29 *[]map[int]wkOQ40t29
	F30 *[]map[int]wkOQ40t30
	F31 *[]map[int]wkOQ40t31
	F32 *[]map[int]wkOQ40t32
	F33 *[]map[int]wkOQ40t33
	F34 *[]map[int]wkOQ40t34
	F35 *[]map[int]wkOQ40t35
	F36 *[]map[int]wkOQ40t36
	F37 *[]map[int]wkOQ40t37
	F38 *[]map[int]wkOQ40t38
	F39 *[]map[int]wkOQ40t39
}
type wkOQ40t4 struct {
	F5  *[]map[int]wkOQ40t5
	F6  *[]map[int]wkOQ40t6
	F7  *[]map[int]wkOQ40t7
	F8  *[]map[int]wkOQ40t8
	F9  *[]map[int]wkOQ40t9
	F10 *[]map[int]wkOQ40t10
	F11 *[]map[int]wkOQ40t11
	F12 *[]map[int]wkOQ40t12
	F13 *[]map[int]wkOQ40t13
	F14 *[]map[int]wkOQ40t14
	F15 *[]map[int]wkOQ40t15
	F16 *[]map[int]wkOQ40t16
	F17 *[]map[int]wkOQ40t17
	F18 *[]map[int]wkOQ40t18
	F19 *[]map[int]wkOQ40t19
	F20 *[]map[int]wkOQ40t20
	F21 *[]map[int]wkOQ40t21
	F22 *[]map[int]wkOQ40t22
	F23 *[]map[int]wkOQ40t23
	F24 *[]map[int]wkOQ40t24
	F25 *[]map[int]wkOQ40t25
	F26 *[]map[int]wkOQ40t26
	F27 *[]map[int]wkOQ40t27
	F28 *[]map[int]wkOQ40t28
	F29 *[]map[int]wkOQ40t29
	F30 *[]map[int]wkOQ40t30
	F31 *[]map[int]wkOQ40t31
	F32 *[]map[int]wkOQ40t32
	F33 *[]map[int]wkOQ40t33
	F34 *[]map[int]wkOQ40t34
	F35 *[]map[int]wkOQ40t35
	F36 *[]map[int]wkOQ40t36
	F37 *[]map[int]wkOQ40t37
	F38 *[]map[int]wkOQ40t38
	F39 *[]map[int]wkOQ40t39
}
type wkOQ40t5 struct {
	F6  *[]map[int]wkOQ40t6
	F7  *[]map[int]wkOQ40t7
	F8  *[]map[int]wkOQ40t8
	F9  *[]map[int]wkOQ40t9
	F10 *[]map[int]wkOQ40t10
	F11 *[]map[int]wkOQ40t11
	F12 *[]map[int]wkOQ40t12
	F13 *[]map[int]wkOQ40t13
	F14 *[]map[int]wkOQ40t14
	F15 *[]map[int]wkOQ40t15
	F16 *[]map[int]wkOQ40t16
	F17 *[]map[int]wkOQ40t17
	F18 *[]map[int]wkOQ40t18
	F19 *[]map[int]wkOQ40t19
	F20 *[]map[int]wkOQ40t20
	F21 *[]map[int]wkOQ40t21
	F22 *[]map[int]wkOQ40t22
	F23 *[]map[int]wkOQ40t23
	F24 *[]map[int]wkOQ40t24
	F25 *[]map[int]wkOQ40t25
	F26 *[]map[int]wkOQ40t26
	F27 *[]map[int]wkOQ40t27
	F28 *[]map[int]wkOQ40t28
	F29 *[]map[int]wkOQ40t29
	F30 *[]map[int]wkOQ40t30
	F31 *[]map[int]wkOQ40t31
	F32 *[]map[int]wkOQ40t32
	F33 *[]map[int]wkOQ40t33
	F34 *[]map[int]wkOQ40t34
	F35 *[]map[int]wkOQ40t35
	F36 *[]map[int]wkOQ40t36
	F37 *[]map[int]wkOQ40t37
	F38 *[]map[int]wkOQ40t38
	F39 *[]map[int]wkOQ40t39
}
type wkOQ40t6 struct {
	F7  *[]map[int]wkOQ40t7
	F8  *[]map[int]wkOQ40t8
	F9  *[]map[int]wkOQ40t9
	F10 *[]map[int]wkOQ40t10
	F11 *[]map[int]wkOQ40t11
	F12 *[]map[int]wkOQ40t12
	F13 *[]map[int]wkOQ40t13
	F14 *[]map[int]wkOQ40t14
	F15 *[]map[int]wkOQ40t15
	F16 *[]map[int]wkOQ40t16
	F17 *[]map[int]wkOQ40t17
	F18 *[]map[int]wkOQ40t18
	F19 *[]map[int]wkOQ40t19
	F20 *[]map[int]wkOQ40t20
	F21 *[]map[int]wkOQ40t21
	F22 *[]map[int]wkOQ40t22
	F23 *[]map[int]wkOQ40t23
	F24 *[]map[int]wkOQ40t24
	F25 *[]map[int]wkOQ40t25
	F26 *[]map[int]wkOQ40t26
	F27 *[]map[int]wkOQ40t27
	F28 *[]map[int]wkOQ40t28
	F29 *[]map[int]wkOQ40t29
	F30 *[]map[int]wkOQ40t30
	F31 *[]map[int]wkOQ40t31
	F32 *[]map[int]wkOQ40t32
	F33 *[]map[int]wkOQ40t33
	F34 *[]map[int]wkOQ40t34
	F35 *[]map[int]wkOQ40t35
	F36 *[]map[int]wkOQ40t36
	F37 *[]map[int]wkOQ40t37
	F38 *[]map[int]wkOQ40t38
	F39 *[]map[int]wkOQ40t39
}
type wkOQ40t7 struct {
	F8  *[]map[int]wkOQ40t8
	F9  *[]map[int]wkOQ40t9
	F10 *[]map[int]wkOQ40t10
	F11 *[]map[int]wkOQ40t11
	F12 *[]map[int]wkOQ40t12
	F13 *[]map[int]wkOQ40t13
	F14 *[]map[int]wkOQ40t14
	F15 *[]map[int]wkOQ40t15
	F16 *[]map[int]wkOQ40t16
	F17 *[]map[int]wkOQ40t17
	F18 *[]map[int]wkOQ40t18
	F19 *[]map[int]wkOQ40t19
	F20 *[]map[int]wkOQ40t20
	F21 *[]map[int]wkOQ40t21
	F22 *[]map[int]wkOQ40t22
	F23 *[]map[int]wkOQ40t23
	F24 *[]map[int]wkOQ40t24
	F25 *[]map[int]wkOQ40t25
	F26 *[]map[int]wkOQ40t26
	F27 *[]map[int]wkOQ40t27
	F28 *[]map[int]wkOQ40t28
	F29 *[]map[int]wkOQ40t29
	F30 *[]map[int]wkOQ40t30
	F31 *[]map[int]wkOQ40t31
	F32 *[]map[int]wkOQ40t32
	F33 *[]map[int]wkOQ40t33
	F34 *[]map[int]wkOQ40t34
	F35 *[]map[int]wkOQ40t35
	F36 *[]map[int]wkOQ40t36
	F37 *[]map[int]wkOQ40t37
	F38 *[]map[int]wkOQ40t38
	F39 *[]map[int]wkOQ40t39
}
type wkOQ40t8 struct {
	F9  *[]map[int]wkOQ40t9
	F10 *[]map[int]wkOQ40t10
	F11 *[]map[int]wkOQ40t11
	F12 *[]map[int]wkOQ40t12
	F13 *[]map[int]wkOQ40t13
	F14 *[]map[int]wkOQ40t14
	F15 *[]map[int]wkOQ40t15
	F16 *[]map[int]wkOQ40t16
	F17 *[]map[int]wkOQ40t17
	F18 *[]map[int]wkOQ40t18
	F19 *[]map[int]wkOQ40t19
	F20 *[]map[int]wkOQ40t20
	F21 *[]map[int]wkOQ40t21
	F22 *[]map[int]wkOQ40t22
	F23 *[]map[int]wkOQ40t23
	F24 *[]map[int]wkOQ40t24
	F25 *[]map[int]wkOQ40t25
	F26 *[]map[int]wkOQ40t26
	F27 *[]map[int]wkOQ40t27
	F28 *[]map[int]wkOQ40t28
	F29 *[]map[int]wkOQ40t29
	F30 *[]map[int]wkOQ40t30
	F31 *[]map[int]wkOQ40t31
	F32 *[]map[int]wkOQ40t32
	F33 *[]map[int]wkOQ40t33
	F34 *[]map[int]wkOQ40t34
	F35 *[]map[int]wkOQ40t35
	F36 *[]map[int]wkOQ40t36
	F37 *[]map[int]wkOQ40t37
	F38 *[]map[int]wkOQ40t38
	F39 *[]map[int]wkOQ40t39
}
type wkOQ40t9 struct {
	F10 *[]map[int]wkOQ40t10
	F11 *[]map[int]wkOQ40t11
	F12 *[]map[int]wkOQ40t12
	F13 *[]map[int]wkOQ40t13
	F14 *[]map[int]wkOQ40t14
	F15 *[]map[int]wkOQ40t15
	F16 *[]map[int]wkOQ40t16
	F17 *[]map[int]wkOQ40t17
	F18 *[]map[int]wkOQ40t18
	F19 *[]map[int]wkOQ40t19
	F20 *[]map[int]wkOQ40t20
	F21 *[]map[int]wkOQ40t21
	F22 *[]map[int]wkOQ40t22
	F23 *[]map[int]wkOQ40t23
	F24 *[]map[int]wkOQ40t24
	F25 *[]map[int]wkOQ40t25
	F26 *[]map[int]wkOQ40t26
	F27 *[]map[int]wkOQ40t27
	F28 *[]map[int]wkOQ40t28
	F29 *[]map[int]wkOQ40t29
	F30 *[]map[int]wkOQ40t30
	F31 *[]map[int]wkOQ40t31
	F32 *[]map[int]wkOQ40t32
	F33 *[]map[int]wkOQ40t33
	F34 *[]map[int]wkOQ40t34
	F35 *[]map[int]wkOQ40t35
	F36 *[]map[int]wkOQ40t36
	F37 *[]map[int]wkOQ40t37
	F38 *[]map[int]wkOQ40t38
	F39 *[]map[int]wkOQ40t39
}
type wkOQ40t10 struct {
	F11 *[]map[int]wkOQ40t11
	F12 *[]map[int]wkOQ40t12
	F13 *[]map[int]wkOQ40t13
	F14 *[]map[int]wkOQ40t14
	F15 *[]map[int]wkOQ40t15
	F16 *[]map[int]wkOQ40t16
	F17 *[]map[int]wkOQ40t17
	F18 *[]map[int]wkOQ40t18
	F19 *[]map[int]wkOQ40t19
	F20 *[]map[int]wkOQ40t20
	F21 *[]map[int]wkOQ40t21
	F22 *[]map[int]wkOQ40t22
	F23 *[]map[int]wkOQ40t23
	F24 *[]map[int]wkOQ40t24
	F25 *[]map[int]wkOQ40t25
	F26 *[]map[int]wkOQ40t26
	F27 *[]map[int]wkOQ40t27
	F28 *[]map[int]wkOQ40t28
	F29 *[]map[int]wkOQ40t29
	F30 *[]map[int]wkOQ40t30
	F31 *[]map[int]wkOQ40t31
	F32 *[]map[int]wkOQ40t32
	F33 *[]map[int]wkOQ40t33
	F34 *[]map[int]wkOQ40t34
	F35 *[]map[int]wkOQ40t35
	F36 *[]map[int]wkOQ40t36
	F37 *[]map[int]wkOQ40t37
	F38 *[]map[int]wkOQ40t38
	F39 *[]map[int]wkOQ40t39
}
type wkOQ40t11 struct {
	F12 *[]map[int]wkOQ40t12
	F13 *[]map[int]wkOQ40t13
	F14 *[]map[int]wkOQ40t14
	F15 *[]map[int]wkOQ40t15
	F16 *[]map[int]wkOQ40t16
	F17 *[]map[int]wkOQ40t17
	F18 *[]map[int]wkOQ40t18
	F19 *[]map[int]wkOQ40t19
	F20 *[]map[int]wkOQ40t20
	F21 *[]map[int]wkOQ40t21
	F22 *[]map[int]wkOQ40t22
	F23 *[]map[int]wkOQ40t23
	F24 *[]map[int]wkOQ40t24
	F25 *[]map[int]wkOQ40t25
	F26 *[]map[int]wkOQ40t26
	F27 *[]map[int]wkOQ40t27
	F28 *[]map[int]wkOQ40t28
	F29 *[]map[int]wkOQ40t29
	F30 *[]map[int]wkOQ40t30
	F31 *[]map[int]wkOQ40t31
	F32 *[]map[int]wkOQ40t32
	F33 *[]map[int]wkOQ40t33
	F34 *[]map[int]wkOQ40t34
	F35 *[]map[int]wkOQ40t35
	F36 *[]map[int]wkOQ40t36
	F37 *[]map[int]wkOQ40t37
	F38 *[]map[int]wkOQ40t38
	F39 *[]map[int]wkOQ40t39
}
type wkOQ40t12 struct {
	F13 *[]map[int]wkOQ40t13
	F14 *[]map[int]wkOQ40t14
	F15 *[]map[int]wkOQ40t15
	F16 *[]map[int]wkOQ40t16
	F17 *[]map[int]wkOQ40t17
	F18 *[]map[int]wkOQ40t18
	F19 *[]map[int]wkOQ40t19
	F20 *[]map[int]wkOQ40t20
	F21 *[]map[int]wkOQ40t21
	F22 *[]map[int]wkOQ40t22
	F23 *[]map[int]wkOQ40t23
	F24 *[]map[int]wkOQ40t24
	F25 *[]map[int]wkOQ40t25
	F26 *[]map[int]wkOQ40t26
	F27 *[]map[int]wkOQ40t27
	F28 *[]map[int]wkOQ40t28
	F29 *[]map[int]wkOQ40t29
	F30 *[]map[int]wkOQ40t30
	F31 *[]map[int]wkOQ40t31
	F32 *[]map[int]wkOQ40t32
	F33 *[]map[int]wkOQ40t33
	F34 *[]map[int]wkOQ40t34
	F35 *[]map[int]wkOQ40t35
	F36 *[]map[int]wkOQ40t36
	F37 *[]map[int]wkOQ40t37
	F38 *[]map[int]wkOQ40t38
	F39 *[]map[int]wkOQ40t39
}
type wkOQ40t13 struct {
	F14 *[]map[int]wkOQ40t14
	F15 *[]map[int]wkOQ40t15
	F16 *[]map[int]wkOQ40t16
	F17 *[]map[int]wkOQ40t17
	F18 *[]map[int]wkOQ40t18
	F19 *[]map[int]wkOQ40t19
	F20 *[]map[int]wkOQ40t20
	F21 *[]map[int]wkOQ40t21
	F22 *[]map[int]wkOQ40t22
	F23 *[]map[int]wkOQ40t23
	F24 *[]map[int]wkOQ40t24
	F25 *[]map[int]wkOQ40t25
	F26 *[]map[int]wkOQ40t26
	F27 *[]map[int]wkOQ40t27
	F28 *[]map[int]wkOQ40t28
	F29 *[]map[int]wkOQ40t29
	F30 *[]map[int]wkOQ40t30
	F31 *[]map[int]wkOQ40t31
	F32 *[]map[int]wkOQ40t32
	F33 *[]map[int]wkOQ40t33
	F34 *[]map[int]wkOQ40t34
	F35 *[]map[int]wkOQ40t35
	F36 *[]map[int]wkOQ40t36
	F37 *[]map[int]wkOQ40t37
	F38 *[]map[int]wkOQ40t38
	F39 *[]map[int]wkOQ40t39
}
type wkOQ40t14 struct {
	F15 *[]map[int]wkOQ40t15
	F16 *[]map[int]wkOQ40t16
	F17 *[]map[int]wkOQ40t17
	F18 *[]map[int]wkOQ40t18
	F19 *[]map[int]wkOQ40t19
	F20 *[]map[int]wkOQ40t20
	F21 *[]map[int]wkOQ40t21
	F22 *[]map[int]wkOQ40t22
	F23 *[]map[int]wkOQ40t23
	F24 *[]map[int]wkOQ40t24
	F25 *[]map[int]wkOQ40t25
	F26 *[]map[int]wkOQ40t26
	F27 *[]map[int]wkOQ40t27
	F28 *[]map[int]wkOQ40t28
	F29 *[]map[int]wkOQ40t29
	F30 *[]map[int]wkOQ40t30
	F31 *[]map[int]wkOQ40t31
	F32 *[]map[int]wkOQ40t32
	F33 *[]map[int]wkOQ40t33
	F34 *[]map[int]wkOQ40t34
	F35 *[]map[int]wkOQ40t35
	F36 *[]map[int]wkOQ40t36
	F37 *[]map[int]wkOQ40t37
	F38 *[]map[int]wkOQ40t38
	F39 *[]map[int]wkOQ40t39
}
type wkOQ40t15 struct {
	F16 *[]map[int]wkOQ40t16
	F17 *[]map[int]wkOQ40t17
	F18 *[]map[int]wkOQ40t18
	F19 *[]map[int]wkOQ40t19
	F20 *[]map[int]wkOQ40t20
	F21 *[]map[int]wkOQ40t21
	F22 *[]map[int]wkOQ40t22
	F23 *[]map[int]wkOQ40t23
	F24 *[]map[int]wkOQ40t24
	F25 *[]map[int]wkOQ40t25
	F26 *[]map[int]wkOQ40t26
	F27 *[]map[int]wkOQ40t27
	F28 *[]map[int]wkOQ40t28
	F29 *[]map[int]wkOQ40t29
	F30 *[]map[int]wkOQ40t30
	F31 *[]map[int]wkOQ40t31
	F32 *[]map[int]wkOQ40t32
	F33 *[]map[int]wkOQ40t33
	F34 *[]map[int]wkOQ40t34
	F35 *[]map[int]wkOQ40t35
	F36 *[]map[int]wkOQ40t36
	F37 *[]map[int]wkOQ40t37
	F38 *[]map[int]wkOQ40t38
	F39 *[]map[int]wkOQ40t39
}
type wkOQ40t16 struct {
	F17 *[]map[int]wkOQ40t17
	F18 *[]map[int]wkOQ40t18
	F19 *[]map[int]wkOQ40t19
	F20 *[]map[int]wkOQ40t20
	F21 *[]map[int]wkOQ40t21
	F22 *[]map[int]wkOQ40t22
	F23 *[]map[int]wkOQ40t23
	F24 *[]map[int]wkOQ40t24
	F25 *[]map[int]wkOQ40t25
	F26 *[]map[int]wkOQ40t26
	F27 *[]map[int]wkOQ40t27
	F28 *[]map[int]wkOQ40t28
	F29 *[]map[int]wkOQ40t29
	F30 *[]map[int]wkOQ40t30
	F31 *[]map[int]wkOQ40t31
	F32 *[]map[int]wkOQ40t32
	F33 *[]map[int]wkOQ40t33
	F34 *[]map[int]wkOQ40t34
	F35 *[]map[int]wkOQ40t35
	F36 *[]map[int]wkOQ40t36
	F37 *[]map[int]wkOQ40t37
	F38 *[]map[int]wkOQ40t38
	F39 *[]map[int]wkOQ40t39
}
type wkOQ40t17 struct {
	F18 *[]map[int]wkOQ40t18
	F19 *[]map[int]wkOQ40t19
	F20 *[]map[int]wkOQ40t20
	F21 *[]map[int]wkOQ40t21
	F22 *[]map[int]wkOQ40t22
	F23 *[]map[int]wkOQ40t23
	F24 *[]map[int]wkOQ40t24
	F25 *[]map[int]wkOQ40t25
	F26 *[]map[int]wkOQ40t26
	F27 *[]map[int]wkOQ40t27
	F28 *[]map[int]wkOQ40t28
	F29 *[]map[int]wkOQ40t29
	F30 *[]map[int]wkOQ40t30
	F31 *[]map[int]wkOQ40t31
	F32 *[]map[int]wkOQ40t32
	F33 *[]map[int]wkOQ40t33
	F34 *[]map[int]wkOQ40t34
	F35 *[]map[int]wkOQ40t35
	F36 *[]map[int]wkOQ40t36
	F37 *[]map[int]wkOQ40t37
	F38 *[]map[int]wkOQ40t38
	F39 *[]map[int]wkOQ40t39
}
type wkOQ40t18 struct {
	F19 *[]map[int]wkOQ40t19
	F20 *[]map[int]wkOQ40t20
	F21 *[]map[int]wkOQ40t21
	F22 *[]map[int]wkOQ40t22
	F23 *[]map[int]wkOQ40t23
	F24 *[]map[int]wkOQ40t24
	F25 *[]map[int]wkOQ40t25
	F26 *[]map[int]wkOQ40t26
	F27 *[]map[int]wkOQ40t27
	F28 *[]map[int]wkOQ40t28
	F29 *[]map[int]wkOQ40t29
	F30 *[]map[int]wkOQ40t30
	F31 *[]map[int]wkOQ40t31
	F32 *[]map[int]wkOQ40t32
	F33 *[]map[int]wkOQ40t33
	F34 *[]map[int]wkOQ40t34
	F35 *[]map[int]wkOQ40t35
	F36 *[]map[int]wkOQ40t36
	F37 *[]map[int]wkOQ40t37
	F38 *[]map[int]wkOQ40t38
	F39 *[]map[int]wkOQ40t39
}
type wkOQ40t19 struct {
	F20 *[]map[int]wkOQ40t20
	F21 *[]map[int]wkOQ40t21
	F22 *[]map[int]wkOQ40t22
	F23 *[]map[int]wkOQ40t23
	F24 *[]map[int]wkOQ40t24
	F25 *[]map[int]wkOQ40t25
	F26 *[]map[int]wkOQ40t26
	F27 *[]map[int]wkOQ40t27
	F28 *[]map[int]wkOQ40t28
	F29 *[]map[int]wkOQ40t29
	F30 *[]map[int]wkOQ40t30
	F31 *[]map[int]wkOQ40t31
	F32 *[]map[int]wkOQ40t32
	F33 *[]map[int]wkOQ40t33
	F34 *[]map[int]wkOQ40t34
	F35 *[]map[int]wkOQ40t35
	F36 *[]map[int]wkOQ40t36
	F37 *[]map[int]wkOQ40t37
	F38 *[]map[int]wkOQ40t38
	F39 *[]map[int]wkOQ40t39
}
type wkOQ40t20 struct {
	F21 *[]map[int]wkOQ40t21
	F22 *[]map[int]wkOQ40t22
	F23 *[]map[int]wkOQ40t23
	F24 *[]map[int]wkOQ40t24
	F25 *[]map[int]wkOQ40t25
	F26 *[]map[int]wkOQ40t26
	F27 *[]map[int]wkOQ40t27
	F28 *[]map[int]wkOQ40t28
	F29 *[]map[int]wkOQ40t29
	F30 *[]map[int]wkOQ40t30
	F31 *[]map[int]wkOQ40t31
	F32 *[]map[int]wkOQ40t32
	F33 *[]map[int]wkOQ40t33
	F34 *[]map[int]wkOQ40t34
	F35 *[]map[int]wkOQ40t35
	F36 *[]map[int]wkOQ40t36
	F37 *[]map[int]wkOQ40t37
	F38 *[]map[int]wkOQ40t38
	F39 *[]map[int]wkOQ40t39
}
type wkOQ40t21 struct {
	F22 *[]map[int]wkOQ40t22
	F23 *[]map[int]wkOQ40t23
	F24 *[]map[int]wkOQ40t24
	F25 *[]map[int]wkOQ40t25
	F26 *[]map[int]wkOQ40t26
	F27 *[]map[int]wkOQ40t27
	F28 *[]map[int]wkOQ40t28
	F29 *[]map[int]wkOQ40t29
	F30 *[]map[int]wkOQ40t30
	F31 *[]map[int]wkOQ40t31
	F32 *[]map[int]wkOQ40t32
	F33 *[]map[int]wkOQ40t33
	F34 *[]map[int]wkOQ40t34
	F35 *[]map[int]wkOQ40t35
	F36 *[]map[int]wkOQ40t36
	F37 *[]map[int]wkOQ40t37
	F38 *[]map[int]wkOQ40t38
	F39 *[]map[int]wkOQ40t39
}
type wkOQ40t22 struct {
	F23 *[]map[int]wkOQ40t23
	F24 *[]map[int]wkOQ40t24
	F25 *[]map[int]wkOQ40t25
	F26 *[]map[int]wkOQ40t26
	F27 *[]map[int]wkOQ40t27
	F28 *[]map[int]wkOQ40t28
	F29 *[]map[int]wkOQ40t29
	F30 *[]map[int]wkOQ40t30
	F31 *[]map[int]wkOQ40t31
	F32 *[]map[int]wkOQ40t32
	F33 *[]map[int]wkOQ40t33
	F34 *[]map[int]wkOQ40t34
	F35 *[]map[int]wkOQ40t35
	F36 *[]map[int]wkOQ40t36
	F37 *[]map[int]wkOQ40t37
	F38 *[]map[int]wkOQ40t38
	F39 *[]map[int]wkOQ40t39
}
type wkOQ40t23 struct {
	F24 *[]map[int]wkOQ40t24
	F25 *[]map[int]wkOQ40t25
	F26 *[]map[int]wkOQ40t26
	F27 *[]map[int]wkOQ40t27
	F28 *[]map[int]wkOQ40t28
	F29 *[]map[int]wkOQ40t29
	F30 *[]map[int]wkOQ40t30
	F31 *[]map[int]wkOQ40t31
	F32 *[]map[int]wkOQ40t32
	F33 *[]map[int]wkOQ40t33
	F34 *[]map[int]wkOQ40t34
	F35 *[]map[int]wkOQ40t35
	F36 *[]map[int]wkOQ40t36
	F37 *[]map[int]wkOQ40t37
	F38 *[]map[int]wkOQ40t38
	F39 *[]map[int]wkOQ40t39
}
type wkOQ40t24 struct {
	F25 *[]map[int]wkOQ40t25
	F26 *[]map[int]wkOQ40t26
	F27 *[]map[int]wkOQ40t27
	F28 *[]map[int]wkOQ40t28
	F29 *[]map[int]wkOQ40t29
	F30 *[]map[int]wkOQ40t30
	F31 *[]map[int]wkOQ40t31
	F32 *[]map[int]wkOQ40t32
	F33 *[]map[int]wkOQ40t33
	F34 *[]map[int]wkOQ40t34
	F35 *[]map[int]wkOQ40t35
	F36 *[]map[int]wkOQ40t36
	F37 *[]map[int]wkOQ40t37
	F38 *[]map[int]wkOQ40t38
	F39 *[]map[int]wkOQ40t39
}
type wkOQ40t25 struct {
	F26 *[]map[int]wkOQ40t26
	F27 *[]map[int]wkOQ40t27
	F28 *[]map[int]wkOQ40t28
	F29 *[]map[int]wkOQ40t29
	F30 *[]map[int]wkOQ40t30
	F31 *[]map[int]wkOQ40t31
	F32 *[]map[int]wkOQ40t32
	F33 *[]map[int]wkOQ40t33
	F34 *[]map[int]wkOQ40t34
	F35 *[]map[int]wkOQ40t35
	F36 *[]map[int]wkOQ40t36
	F37 *[]map[int]wkOQ40t37
	F38 *[]map[int]wkOQ40t38
	F39 *[]map[int]wkOQ40t39
}
type wkOQ40t26 struct {
	F27 *[]map[int]wkOQ40t27
	F28 *[]map[int]wkOQ40t28
	F29 *[]map[int]wkOQ40t29
	F30 *[]map[int]wkOQ40t30
	F31 *[]map[int]wkOQ40t31
	F32 *[]map[int]wkOQ40t32
	F33 *[]map[int]wkOQ40t33
	F34 *[]map[int]wkOQ40t34
	F35 *[]map[int]wkOQ40t35
	F36 *[]map[int]wkOQ40t36
	F37 *[]map[int]wkOQ40t37
	F38 *[]map[int]wkOQ40t38
	F39 *[]map[int]wkOQ40t39
}
type wkOQ40t27 struct {
	F28 *[]map[int]wkOQ40t28
	F29 *[]map[int]wkOQ40t29
	F30 *[]map[int]wkOQ40t30
	F31 *[]map[int]wkOQ40t31
	F32 *[]map[int]wkOQ40t32
	F33 *[]map[int]wkOQ40t33
	F34 *[]map[int]wkOQ40t34
	F35 *[]map[int]wkOQ40t35
	F36 *[]map[int]wkOQ40t36
	F37 *[]map[int]wkOQ40t37
	F38 *[]map[int]wkOQ40t38
	F39 *[]map[int]wkOQ40t39
}
type wkOQ40t28 struct {
	F29 *[]map[int]wkOQ40t29
	F30 *[]map[int]wkOQ40t30
	F31 *[]map[int]wkOQ40t31
	F32 *[]map[int]wkOQ40t32
	F33 *[]map[int]wkOQ40t33
	F34 *[]map[int]wkOQ40t34
	F35 *[]map[int]wkOQ40t35
	F36 *[]map[int]wkOQ40t36
	F37 *[]map[int]wkOQ40t37
	F38 *[]map[int]wkOQ40t38
	F39 *[]map[int]wkOQ40t39
}
type wkOQ40t29 struct {
	F30 *[]map[int]wkOQ40t30
	F31 *[]map[int]wkOQ40t31
	F32 *[]map[int]wkOQ40t32
	F33 *[]map[int]wkOQ40t33
	F34 *[]map[int]wkOQ40t34
	F35 *[]map[int]wkOQ40t35
	F36 *[]map[int]wkOQ40t36
	F37 *[]map[int]wkOQ40t37
	F38 *[]map[int]wkOQ40t38
	F39 *[]map[int]wkOQ40t39
}
type wkOQ40t30 struct {
	F31 *[]map[int]wkOQ40t31
	F32 *[]map[int]wkOQ40t32
	F33 *[]map[int]wkOQ40t33
	F34 *[]map[int]wkOQ40t34
	F35 *[]map[int]wkOQ40t35
	F36 *[]map[int]wkOQ40t36
	F37 *[]map[int]wkOQ40t37
	F38 *[]map[int]wkOQ40t38
	F39 *[]map[int]wkOQ40t39
}
type wkOQ40t31 struct {
	F32 *[]map[int]wkOQ40t32
	F33 *[]map[int]wkOQ40t33
	F34 *[]map[int]wkOQ40t34
	F35 *[]map[int]wkOQ40t35
	F36 *[]map[int]wkOQ40t36
	F37 *[]map[int]wkOQ40t37
	F38 *[]map[int]wkOQ40t38
	F39 *[]map[int]wkOQ40t39
}
type wkOQ40t32 struct {
	F33 *[]map[int]wkOQ40t33
	F34 *[]map[int]wkOQ40t34
	F35 *[]map[int]wkOQ40t35
	F36 *[]map[int]wkOQ40t36
	F37 *[]map[int]wkOQ40t37
	F38 *[]map[int]wkOQ40t38
	F39 *[]map[int]wkOQ40t39
}
type wkOQ40t33 struct {
	F34 *[]map[int]wkOQ40t34
	F35 *[]map[int]wkOQ40t35
	F36 *[]map[int]wkOQ40t36
	F37 *[]map[int]wkOQ40t37
	F38 *[]map[int]wkOQ40t38
	F39 *[]map[int]wkOQ40t39
}
type wkOQ40t34 struct {
	F35 *[]map[int]wkOQ40t35
	F36 *[]map[int]wkOQ40t36
	F37 *[]map[int]wkOQ40t37
	F38 *[]map[int]wkOQ40t38
	F39 *[]map[int]wkOQ40t39
}
type wkOQ40t35 struct {
	F36 *[]map[int]wkOQ40t36
	F37 *[]map[int]wkOQ40t37
	F38 *[]map[int]wkOQ40t38
	F39 *[]map[int]wkOQ40t39
}
type wkOQ40t36 struct {
	F37 *[]map[int]wkOQ40t37
	F38 *[]map[int]wkOQ40t38
	F39 *[]map[int]wkOQ40t39
}
type wkOQ40t37 struct {
	F38 *[]map[int]wkOQ40t38
	F39 *[]map[int]wkOQ40t39
}
type wkOQ40t38 struct{ F39 *[]map[int]wkOQ40t39 }
type wkOQ40t39 struct{ F0 *[]map[int]wkOQ40t0 }
type wkCX2t0 struct {
	F0 []wkCX2t0
	F1 *wkCX2t1
}
type wkCX2t1 struct {
	F0 *wkCX2t0
	F1 map[string]wkCX2t1
}
type wkCX4t0 struct {
	F0 []wkCX4t0
	F1 *wkCX4t1
	F2 map[string]wkCX4t2
	F3 [1]*wkCX4t3
}
type wkCX4t1 struct {
	F0 *wkCX4t0
	F1 map[string]wkCX4t1
	F2 [1]*wkCX4t2
	F3 *[]map[int]wkCX4t3
}
type wkCX4t2 struct {
	F0 map[string]wkCX4t0
	F1 [1]*wkCX4t1
	F2 *[]map[int]wkCX4t2
	F3 []wkCX4t3
}
type wkCX4t3 struct {
	F0 [1]*wkCX4t0
	F1 *[]map[int]wkCX4t1
	F2 []wkCX4t2
	F3 *wkCX4t3
}
type wkCX6t0 struct {
	F0 []wkCX6t0
	F1 *wkCX6t1
	F2 map[string]wkCX6t2
	F3 [1]*wkCX6t3
	F4 *[]map[int]wkCX6t4
	F5 []wkCX6t5
}
type wkCX6t1 struct {
	F0 *wkCX6t0
	F1 map[string]wkCX6t1
	F2 [1]*wkCX6t2
	F3 *[]map[int]wkCX6t3
	F4 []wkCX6t4
	F5 *wkCX6t5
}
type wkCX6t2 struct {
	F0 map[string]wkCX6t0
	F1 [1]*wkCX6t1
	F2 *[]map[int]wkCX6t2
	F3 []wkCX6t3
	F4 *wkCX6t4
	F5 map[string]wkCX6t5
}
type wkCX6t3 struct {
	F0 [1]*wkCX6t0
	F1 *[]map[int]wkCX6t1
	F2 []wkCX6t2
	F3 *wkCX6t3
	F4 map[string]wkCX6t4
	F5 [1]*wkCX6t5
}
type wkCX6t4 struct {
	F0 *[]map[int]wkCX6t0
	F1 []wkCX6t1
	F2 *wkCX6t2
	F3 map[string]wkCX6t3
	F4 [1]*wkCX6t4
	F5 *[]map[int]wkCX6t5
}
type wkCX6t5 struct {
	F0 []wkCX6t0
	F1 *wkCX6t1
	F2 map[string]wkCX6t2
	F3 [1]*wkCX6t3
	F4 *[]map[int]wkCX6t4
	F5 []wkCX6t5
}
type wkCX8t0 struct {
	F0 []wkCX8t0
	F1 *wkCX8t1
	F2 map[string]wkCX8t2
	F3 [1]*wkCX8t3
	F4 *[]map[int]wkCX8t4
	F5 []wkCX8t5
	F6 *wkCX8t6
	F7 map[string]wkCX8t7
}
type wkCX8t1 struct {
	F0 *wkCX8t0
	F1 map[string]wkCX8t1
	F2 [1]*wkCX8t2
	F3 *[]map[int]wkCX8t3
	F4 []wkCX8t4
	F5 *wkCX8t5
	F6 map[string]wkCX8t6
	F7 [1]*wkCX8t7
}
type wkCX8t2 struct {
	F0 map[string]wkCX8t0
	F1 [1]*wkCX8t1
	F2 *[]map[int]wkCX8t2
	F3 []wkCX8t3
	F4 *wkCX8t4
	F5 map[string]wkCX8t5
	F6 [1]*wkCX8t6
	F7 *[]map[int]wkCX8t7
}
type wkCX8t3 struct {
	F0 [1]*wkCX8t0
	F1 *[]map[int]wkCX8t1
	F2 []wkCX8t2
	F3 *wkCX8t3
	F4 map[string]wkCX8t4
	F5 [1]*wkCX8t5
	F6 *[]map[int]wkCX8t6
	F7 []wkCX8t7
}
type wkCX8t4 struct {
	F0 *[]map[int]wkCX8t0
	F1 []wkCX8t1
	F2 *wkCX8t2
	F3 map[string]wkCX8t3
	F4 [1]*wkCX8t4
	F5 *[]map[int]wkCX8t5
	F6 []wkCX8t6
	F7 *wkCX8t7
}
type wkCX8t5 struct {
	F0 []wkCX8t0
	F1 *wkCX8t1
	F2 map[string]wkCX8t2
	F3 [1]*wkCX8t3
	F4 *[]map[int]wkCX8t4
	F5 []wkCX8t5
	F6 *wkCX8t6
	F7 map[string]wkCX8t7
}
type wkCX8t6 struct {
	F0 *wkCX8t0
	F1 map[string]wkCX8t1
	F2 [1]*wkCX8t2
	F3 *[]map[int]wkCX8t3
	F4 []wkCX8t4
	F5 *wkCX8t5
	F6 map[string]wkCX8t6
	F7 [1]*wkCX8t7
}
type wkCX8t7 struct {
	F0 map[string]wkCX8t0
	F1 [1]*wkCX8t1
	F2 *[]map[int]wkCX8t2
	F3 []wkCX8t3
	F4 *wkCX8t4
	F5 map[string]wkCX8t5
	F6 [1]*wkCX8t6
	F7 *[]map[int]wkCX8t7
}
type wkCX9t0 struct {
	F0 []wkCX9t0
	F1 *wkCX9t1
	F2 map[string]wkCX9t2
	F3 [1]*wkCX9t3
	F4 *[]map[int]wkCX9t4
	F5 []wkCX9t5
	F6 *wkCX9t6
	F7 map[string]wkCX9t7
	F8 [1]*wkCX9t8
}
type wkCX9t1 struct {
	F0 *wkCX9t0
	F1 map[string]wkCX9t1
	F2 [1]*wkCX9t2
	F3 *[]map[int]wkCX9t3
	F4 []wkCX9t4
	F5 *wkCX9t5
	F6 map[string]wkCX9t6
	F7 [1]*wkCX9t7
	F8 *[]map[int]wkCX9t8
}
type wkCX9t2 struct {
	F0 map[string]wkCX9t0
	F1 [1]*wkCX9t1
	F2 *[]map[int]wkCX9t2
	F3 []wkCX9t3
	F4 *wkCX9t4
	F5 map[string]wkCX9t5
	F6 [1]*wkCX9t6
	F7 *[]map[int]wkCX9t7
	F8 []wkCX9t8
}
type wkCX9t3 struct {
	F0 [1]*wkCX9t0
	F1 *[]map[int]wkCX9t1
	F2 []wkCX9t2
	F3 *wkCX9t3
	F4 map[string]wkCX9t4
	F5 [1]*wkCX9t5
	F6 *[]map[int]wkCX9t6
	F7 []wkCX9t7
	F8 *wkCX9t8
}
type wkCX9t4 struct {
	F0 *[]map[int]wkCX9t0
	F1 []wkCX9t1
	F2 *wkCX9t2
	F3 map[string]wkCX9t3
	F4 [1]*wkCX9t4
	F5 *[]map[int]wkCX9t5
	F6 []wkCX9t6
	F7 *wkCX9t7
	F8 map[string]wkCX9t8
}
type wkCX9t5 struct {
	F0 []wkCX9t0
	F1 *wkCX9t1
	F2 map[string]wkCX9t2
	F3 [1]*wkCX9t3
	F4 *[]map[int]wkCX9t4
	F5 []wkCX9t5
	F6 *wkCX9t6
	F7 map[string]wkCX9t7
	F8 [1]*wkCX9t8
}
type wkCX9t6 struct {
	F0 *wkCX9t0
	F1 map[string]wkCX9t1
	F2 [1]*wkCX9t2
	F3 *[]map[int]wkCX9t3
	F4 []wkCX9t4
	F5 *wkCX9t5
	F6 map[string]wkCX9t6
	F7 [1]*wkCX9t7
	F8 *[]map[int]wkCX9t8
}
type wkCX9t7 struct {
	F0 map[string]wkCX9t0
	F1 [1]*wkCX9t1
	F2 *[]map[int]wkCX9t2
	F3 []wkCX9t3
	F4 *wkCX9t4
	F5 map[string]wkCX9t5
	F6 [1]*wkCX9t6
	F7 *[]map[int]wkCX9t7
	F8 []wkCX9t8
}
type wkCX9t8 struct {
	F0 [1]*wkCX9t0
	F1 *[]map[int]wkCX9t1
	F2 []wkCX9t2
	F3 *wkCX9t3
	F4 map[string]wkCX9t4
	F5 [1]*wkCX9t5
	F6 *[]map[int]wkCX9t6
	F7 []wkCX9t7
	F8 *wkCX9t8
}
type wkCX10t0 struct {
	F0 []wkCX10t0
	F1 *wkCX10t1
	F2 map[string]wkCX10t2
	F3 [1]*wkCX10t3
	F4 *[]map[int]wkCX10t4
	F5 []wkCX10t5
	F6 *wkCX10t6
	F7 map[string]wkCX10t7
	F8 [1]*wkCX10t8
	F9 *[]map[int]wkCX10t9
}
type wkCX10t1 struct {
	F0 *wkCX10t0
	F1 map[string]wkCX10t1
	F2 [1]*wkCX10t2
	F3 *[]map[int]wkCX10t3
	F4 []wkCX10t4
	F5 *wkCX10t5
	F6 map[string]wkCX10t6
	F7 [1]*wkCX10t7
	F8 *[]map[int]wkCX10t8
	F9 []wkCX10t9
}
type wkCX10t2 struct {
	F0 map[string]wkCX10t0
	F1 [1]*wkCX10t1
	F2 *[]map[int]wkCX10t2
	F3 []wkCX10t3
	F4 *wkCX10t4
	F5 map[string]wkCX10t5
	F6 [1]*wkCX10t6
	F7 *[]map[int]wkCX10t7
	F8 []wkCX10t8
	F9 *wkCX10t9
}
type wkCX10t3 struct {
	F0 [1]*wkCX10t0
	F1 *[]map[int]wkCX10t1
	F2 []wkCX10t2
	F3 *wkCX10t3
	F4 map[string]wkCX10t4
	F5 [1]*wkCX10t5
	F6 *[]map[int]wkCX10t6
	F7 []wkCX10t7
	F8 *wkCX10t8
	F9 map[string]wkCX10t9
}
type wkCX10t4 struct {
	F0 *[]map[int]wkCX10t0
	F1 []wkCX10t1
	F2 *wkCX10t2
	F3 map[string]wkCX10t3
	F4 [1]*wkCX10t4
	F5 *[]map[int]wkCX10t5
	F6 []wkCX10t6
	F7 *wkCX10t7
	F8 map[string]wkCX10t8
	F9 [1]*wkCX10t9
}
type wkCX10t5 struct {
	F0 []wkCX10t0
	F1 *wkCX10t1
	F2 map[string]wkCX10t2
	F3 [1]*wkCX10t3
	F4 *[]map[int]wkCX10t4
	F5 []wkCX10t5
	F6 *wkCX10t6
	F7 map[string]wkCX10t7
	F8 [1]*wkCX10t8
	F9 *[]map[int]wkCX10t9
}
type wkCX10t6 struct {
	F0 *wkCX10t0
	F1 map[string]wkCX10t1
	F2 [1]*wkCX10t2
	F3 *[]map[int]wkCX10t3
	F4 []wkCX10t4
	F5 *wkCX10t5
	F6 map[string]wkCX10t6
	F7 [1]*wkCX10t7
	F8 *[]map[int]wkCX10t8
	F9 []wkCX10t9
}
type wkCX10t7 struct {
	F0 map[string]wkCX10t0
	F1 [1]*wkCX10t1
	F2 *[]map[int]wkCX10t2
	F3 []wkCX10t3
	F4 *wkCX10t4
	F5 map[string]wkCX10t5
	F6 [1]*wkCX10t6
	F7 *[]map[int]wkCX10t7
	F8 []wkCX10t8
	F9 *wkCX10t9
}
type wkCX10t8 struct {
	F0 [1]*wkCX10t0
	F1 *[]map[int]wkCX10t1
	F2 []wkCX10t2
	F3 *wkCX10t3
	F4 map[string]wkCX10t4
	F5 [1]*wkCX10t5
	F6 *[]map[int]wkCX10t6
	F7 []wkCX10t7
	F8 *wkCX10t8
	F9 map[string]wkCX10t9
}
type wkCX10t9 struct {
	F0 *[]map[int]wkCX10t0
	F1 []wkCX10t1
	F2 *wkCX10t2
	F3 map[string]wkCX10t3
	F4 [1]*wkCX10t4
	F5 *[]map[int]wkCX10t5
	F6 []wkCX10t6
	F7 *wkCX10t7
	F8 map[string]wkCX10t8
	F9 [1]*wkCX10t9
}
type wkCX11t0 struct {
	F0  []wkCX11t0
	F1  *wkCX11t1
	F2  map[string]wkCX11t2
	F3  [1]*wkCX11t3
	F4  *[]map[int]wkCX11t4
	F5  []wkCX11t5
	F6  *wkCX11t6
	F7  map[string]wkCX11t7
	F8  [1]*wkCX11t8
	F9  *[]map[int]wkCX11t9
	F10 []wkCX11t10
}
type wkCX11t1 struct {
	F0  *wkCX11t0
	F1  map[string]wkCX11t1
	F2  [1]*wkCX11t2
	F3  *[]map[int]wkCX11t3
	F4  []wkCX11t4
	F5  *wkCX11t5
	F6  map[string]wkCX11t6
	F7  [1]*wkCX11t7
	F8  *[]map[int]wkCX11t8
	F9  []wkCX11t9
	F10 *wkCX11t10
}
type wkCX11t2 struct {
	F0  map[string]wkCX11t0
	F1  [1]*wkCX11t1
	F2  *[]map[int]wkCX11t2
	F3  []wkCX11t3
	F4  *wkCX11t4
	F5  map[string]wkCX11t5
	F6  [1]*wkCX11t6
	F7  *[]map[int]wkCX11t7
	F8  []wkCX11t8
	F9  *wkCX11t9
	F10 map[string]wkCX11t10
}
type wkCX11t3 struct {
	F0  [1]*wkCX11t0
	F1  *[]map[int]wkCX11t1
	F2  []wkCX11t2
	F3  *wkCX11t3
	F4  map[string]wkCX11t4
	F5  [1]*wkCX11t5
	F6  *[]map[int]wkCX11t6
	F7  []wkCX11t7
	F8  *wkCX11t8
	F9  map[string]wkCX11t9
	F10 [1]*wkCX11t10
}
type wkCX11t4 struct {
	F0  *[]map[int]wkCX11t0
	F1  []wkCX11t1
	F2  *wkCX11t2
	F3  map[string]wkCX11t3
	F4  [1]*wkCX11t4
	F5  *[]map[int]wkCX11t5
	F6  []wkCX11t6
	F7  *wkCX11t7
	F8  map[string]wkCX11t8
	F9  [1]*wkCX11t9
	F10 *[]map[int]wkCX11t10
}
type wkCX11t5 struct {
	F0  []wkCX11t0
	F1  *wkCX11t1
	F2  map[string]wkCX11t2
	F3  [1]*wkCX11t3
	F4  *[]map[int]wkCX11t4
	F5  []wkCX11t5
	F6  *wkCX11t6
	F7  map[string]wkCX11t7
	F8  [1]*wkCX11t8
	F9  *[]map[int]wkCX11t9
	F10 []wkCX11t10
}
type wkCX11t6 struct {
	F0  *wkCX11t0
	F1  map[string]wkCX11t1
	F2  [1]*wkCX11t2
	F3  *[]map[int]wkCX11t3
	F4  []wkCX11t4
	F5  *wkCX11t5
	F6  map[string]wkCX11t6
	F7  [1]*wkCX11t7
	F8  *[]map[int]wkCX11t8
	F9  []wkCX11t9
	F10 *wkCX11t10
}
type wkCX11t7 struct {
	F0  map[string]wkCX11t0
	F1  [1]*wkCX11t1
	F2  *[]map[int]wkCX11t2
	F3  []wkCX11t3
	F4  *wkCX11t4
	F5  map[string]wkCX11t5
	F6  [1]*wkCX11t6
	F7  *[]map[int]wkCX11t7
	F8  []wkCX11t8
	F9  *wkCX11t9
	F10 map[string]wkCX11t10
}
type wkCX11t8 struct {
	F0  [1]*wkCX11t0
	F1  *[]map[int]wkCX11t1
	F2  []wkCX11t2
	F3  *wkCX11t3
	F4  map[string]wkCX11t4
	F5  [1]*wkCX11t5
	F6  *[]map[int]wkCX11t6
	F7  []wkCX11t7
	F8  *wkCX11t8
	F9  map[string]wkCX11t9
	F10 [1]*wkCX11t10
}
type wkCX11t9 struct {
	F0  *[]map[int]wkCX11t0
	F1  []wkCX11t1
	F2  *wkCX11t2
	F3  map[string]wkCX11t3
	F4  [1]*wkCX11t4
	F5  *[]map[int]wkCX11t5
	F6  []wkCX11t6
	F7  *wkCX11t7
	F8  map[string]wkCX11t8
	F9  [1]*wkCX11t9
	F10 *[]map[int]wkCX11t10
}
type wkCX11t10 struct {
	F0  []wkCX11t0
	F1  *wkCX11t1
	F2  map[string]wkCX11t2
	F3  [1]*wkCX11t3
	F4  *[]map[int]wkCX11t4
	F5  []wkCX11t5
	F6  *wkCX11t6
	F7  map[string]wkCX11t7
	F8  [1]*wkCX11t8
	F9  *[]map[int]wkCX11t9
	F10 []wkCX11t10
}
type wkCX12t0 struct {
	F0  []wkCX12t0
	F1  *wkCX12t1
	F2  map[string]wkCX12t2
	F3  [1]*wkCX12t3
	F4  *[]map[int]wkCX12t4
	F5  []wkCX12t5
	F6  *wkCX12t6
	F7  map[string]wkCX12t7
	F8  [1]*wkCX12t8
	F9  *[]map[int]wkCX12t9
	F10 []wkCX12t10
	F11 *wkCX12t11
}
type wkCX12t1 struct {
	F0  *wkCX12t0
	F1  map[string]wkCX12t1
	F2  [1]*wkCX12t2
	F3  *[]map[int]wkCX12t3
	F4  []wkCX12t4
	F5  *wkCX12t5
	F6  map[string]wkCX12t6
	F7  [1]*wkCX12t7
	F8  *[]map[int]wkCX12t8
	F9  []wkCX12t9
	F10 *wkCX12t10
	F11 map[string]wkCX12t11
}
type wkCX12t2 struct {
	F0  map[string]wkCX12t0
	F1  [1]*wkCX12t1
	F2  *[]map[int]wkCX12t2
	F3  []wkCX12t3
	F4  *wkCX12t4
	F5  map[string]wkCX12t5
	F6  [1]*wkCX12t6
	F7  *[]map[int]wkCX12t7
	F8  []wkCX12t8
	F9  *wkCX12t9
	F10 map[string]wkCX12t10
	F11 [1]*wkCX12t11
}
type wkCX12t3 struct {
	F0  [1]*wkCX12t0
	F1  *[]map[int]wkCX12t1
	F2  []wkCX12t2
	F3  *wkCX12t3
	F4  map[string]wkCX12t4
	F5  [1]*wkCX12t5
	F6  *[]map[int]wkCX12t6
	F7  []wkCX12t7
	F8  *wkCX12t8
	F9  map[string]wkCX12t9
	F10 [1]*wkCX12t10
	F11 *[]map[int]wkCX12t11
}
type wkCX12t4 struct {
	F0  *[]map[int]wkCX12t0
	F1  []wkCX12t1
	F2  *wkCX12t2
	F3  map[string]wkCX12t3
	F4  [1]*wkCX12t4
	F5  *[]map[int]wkCX12t5
	F6  []wkCX12t6
	F7  *wkCX12t7
	F8  map[string]wkCX12t8
	F9  [1]*wkCX12t9
	F10 *[]map[int]wkCX12t10
	F11 []wkCX12t11
}
type wkCX12t5 struct {
	F0  []wkCX12t0
	F1  *wkCX12t1
	F2  map[string]wkCX12t2
	F3  [1]*wkCX12t3
	F4  *[]map[int]wkCX12t4
	F5  []wkCX12t5
	F6  *wkCX12t6
	F7  map[string]wkCX12t7
	F8  [1]*wkCX12t8
	F9  *[]map[int]wkCX12t9
	F10 []wkCX12t10
	F11 *wkCX12t11
}
type wkCX12t6 struct {
	F0  *wkCX12t0
	F1  map[string]wkCX12t1
	F2  [1]*wkCX12t2
	F3  *[]map[int]wkCX12t3
	F4  []wkCX12t4
	F5  *wkCX12t5
	F6  map[string]wkCX12t6
	F7  [1]*wkCX12t7
	F8  *[]map[int]wkCX12t8
	F9  []wkCX12t9
	F10 *wkCX12t10
	F11 map[string]wkCX12t11
}
type wkCX12t7 struct {
	F0  map[string]wkCX12t0
	F1  [1]*wkCX12t1
	F2  *[]map[int]wkCX12t2
	F3  []wkCX12t3
	F4  *wkCX12t4
	F5  map[string]wkCX12t5
	F6  [1]*wkCX12t6
	F7  *[]map[int]wkCX12t7
	F8  []wkCX12t8
	F9  *wkCX12t9
	F10 map[string]wkCX12t10
	F11 [1]*wkCX12t11
}
type wkCX12t8 struct {
	F0  [1]*wkCX12t0
	F1  *[]map[int]wkCX12t1
	F2  []wkCX12t2
	F3  *wkCX12t3
	F4  map[string]wkCX12t4
	F5  [1]*wkCX12t5
	F6  *[]map[int]wkCX12t6
	F7  []wkCX12t7
	F8  *wkCX12t8
	F9  map[string]wkCX12t9
	F10 [1]*wkCX12t10
	F11 *[]map[int]wkCX12t11
}
type wkCX12t9 struct {
	F0  *[]map[int]wkCX12t0
	F1  []wkCX12t1
	F2  *wkCX12t2
	F3  map[string]wkCX12t3
	F4  [1]*wkCX12t4
	F5  *[]map[int]wkCX12t5
	F6  []wkCX12t6
	F7  *wkCX12t7
	F8  map[string]wkCX12t8
	F9  [1]*wkCX12t9
	F10 *[]map[int]wkCX12t10
	F11 []wkCX12t11
}
type wkCX12t10 struct {
	F0  []wkCX12t0
	F1  *wkCX12t1
	F2  map[string]wkCX12t2
	F3  [1]*wkCX12t3
	F4  *[]map[int]wkCX12t4
	F5  []wkCX12t5
	F6  *wkCX12t6
	F7  map[string]wkCX12t7
	F8  [1]*wkCX12t8
	F9  *[]map[int]wkCX12t9
	F10 []wkCX12t10
	F11 *wkCX12t11
}
type wkCX12t11 struct {
	F0  *wkCX12t0
	F1  map[string]wkCX12t1
	F2  [1]*wkCX12t2
	F3  *[]map[int]wkCX12t3
	F4  []wkCX12t4
	F5  *wkCX12t5
	F6  map[string]wkCX12t6
	F7  [1]*wkCX12t7
	F8  *[]map[int]wkCX12t8
	F9  []wkCX12t9
	F10 *wkCX12t10
	F11 map[string]wkCX12t11
}
type wkCX16t0 struct {
	F0  []wkCX16t0
	F1  *wkCX16t1
	F2  map[string]wkCX16t2
	F3  [1]*wkCX16t3
	F4  *[]map[int]wkCX16t4
	F5  []wkCX16t5
	F6  *wkCX16t6
	F7  map[string]wkCX16t7
	F8  [1]*wkCX16t8
	F9  *[]map[int]wkCX16t9
	F10 []wkCX16t10
	F11 *wkCX16t11
	F12 map[string]wkCX16t12
	F13 [1]*wkCX16t13
	F14 *[]map[int]wkCX16t14
	F15 []wkCX16t15
}
type wkCX16t1 struct {
	F0  *wkCX16t0
	F1  map[string]wkCX16t1
	F2  [1]*wkCX16t2
	F3  *[]map[int]wkCX16t3
	F4  []wkCX16t4
	F5  *wkCX16t5
	F6  map[string]wkCX16t6
	F7  [1]*wkCX16t7
	F8  *[]map[int]wkCX16t8
	F9  []wkCX16t9
	F10 *wkCX16t10
	F11 map[string]wkCX16t11
	F12 [1]*wkCX16t12
	F13 *[]map[int]wkCX16t13
	F14 []wkCX16t14
	F15 *wkCX16t15
}
type wkCX16t2 struct {
	F0  map[string]wkCX16t0
	F1  [1]*wkCX16t1
	F2  *[]map[int]wkCX16t2
	F3  []wkCX16t3
	F4  *wkCX16t4
	F5  map[string]wkCX16t5
	F6  [1]*wkCX16t6
	F7  *[]map[int]wkCX16t7
	F8  []wkCX16t8
	F9  *wkCX16t9
	F10 map[string]wkCX16t10
	F11 [1]*wkCX16t11
	F12 *[]map[int]wkCX16t12
	F13 []wkCX16t13
	F14 *wkCX16t14
	F15 map[string]wkCX16t15
}
type wkCX16t3 struct {
	F0  [1]*wkCX16t0
	F1  *[]map[int]wkCX16t1
	F2  []wkCX16t2
	F3  *wkCX16t3
	F4  map[string]wkCX16t4
	F5  [1]*wkCX16t5
	F6  *[]map[int]wkCX16t6
	F7  []wkCX16t7
	F8  *wkCX16t8
	F9  map[string]wkCX16t9
	F10 [1]*wkCX16t10
	F11 *[]map[int]wkCX16t11
	F12 []wkCX16t12
	F13 *wkCX16t13
	F14 map[string]wkCX16t14
	F15 [1]*wkCX16t15
}
type wkCX16t4 struct {
	F0  *[]map[int]wkCX16t0
	F1  []wkCX16t1
	F2  *wkCX16t2
	F3  map[string]wkCX16t3
	F4  [1]*wkCX16t4
	F5  *[]map[int]wkCX16t5
	F6  []wkCX16t6
	F7  *wkCX16t7
	F8  map[string]wkCX16t8
	F9  [1]*wkCX16t9
	F10 *[]map[int]wkCX16t10
	F11 []wkCX16t11
	F12 *wkCX16t12
	F13 map[string]wkCX16t13
	F14 [1]*wkCX16t14
	F15 *[]map[int]wkCX16t15
}
type wkCX16t5 struct {
	F0  []wkCX16t0
	F1  *wkCX16t1
	F2  map[string]wkCX16t2
	F3  [1]*wkCX16t3
	F4  *[]map[int]wkCX16t4
	F5  []wkCX16t5
	F6  *wkCX16t6
	F7  map[string]wkCX16t7
	F8  [1]*wkCX16t8
	F9  *[]map[int]wkCX16t9
	F10 []wkCX16t10
	F11 *wkCX16t11
	F12 map[string]wkCX16t12
	F13 [1]*wkCX16t13
	F14 *[]map[int]wkCX16t14
	F15 []wkCX16t15
}
type wkCX16t6 struct {
	F0  *wkCX16t0
	F1  map[string]wkCX16t1
	F2  [1]*wkCX16t2
	F3  *[]map[int]wkCX16t3
	F4  []wkCX16t4
	F5  *wkCX16t5
	F6  map[string]wkCX16t6
	F7  [1]*wkCX16t7
	F8  *[]map[int]wkCX16t8
	F9  []wkCX16t9
	F10 *wkCX16t10
	F11 map[string]wkCX16t11
	F12 [1]*wkCX16t12
	F13 *[]map[int]wkCX16t13
	F14 []wkCX16t14
	F15 *wkCX16t15
}
type wkCX16t7 struct {
	F0  map[string]wkCX16t0
	F1  [1]*wkCX16t1
	F2  *[]map[int]wkCX16t2
	F3  []wkCX16t3
	F4  *wkCX16t4
	F5  map[string]wkCX16t5
	F6  [1]*wkCX16t6
	F7  *[]map[int]wkCX16t7
	F8  []wkCX16t8
	F9  *wkCX16t9
	F10 map[string]wkCX16t10
	F11 [1]*wkCX16t11
	F12 *[]map[int]wkCX16t12
	F13 []wkCX16t13
	F14 *wkCX16t14
	F15 map[string]wkCX16t15
}
type wkCX16t8 struct {
	F0  [1]*wkCX16t0
	F1  *[]map[int]wkCX16t1
	F2  []wkCX16t2
	F3  *wkCX16t3
	F4  map[string]wkCX16t4
	F5  [1]*wkCX16t5
	F6  *[]map[int]wkCX16t6
	F7  []wkCX16t7
	F8  *wkCX16t8
	F9  map[string]wkCX16t9
	F10 [1]*wkCX16t10
	F11 *[]map[int]wkCX16t11
	F12 []wkCX16t12
	F13 *wkCX16t13
	F14 map[string]wkCX16t14
	F15 [1]*wkCX16t15
}
type wkCX16t9 struct {
	F0  *[]map[int]wkCX16t0
	F1  []wkCX16t1
	F2  *wkCX16t2
	F3  map[string]wkCX16t3
	F4  [1]*wkCX16t4
	F5  *[]map[int]wkCX16t5
	F6  []wkCX16t6
	F7  *wkCX16t7
	F8  map[string]wkCX16t8
	F9  [1]*wkCX16t9
	F10 *[]map[int]wkCX16t10
	F11 []wkCX16t11
	F12 *wkCX16t12
	F13 map[string]wkCX16t13
	F14 [1]*wkCX16t14
	F15 *[]map[int]wkCX16t15
}
type wkCX16t10 struct {
	F0  []wkCX16t0
	F1  *wkCX16t1
	F2  map[string]wkCX16t2
	F3  [1]*wkCX16t3
	F4  *[]map[int]wkCX16t4
	F5  []wkCX16t5
	F6  *wkCX16t6
	F7  map[string]wkCX16t7
	F8  [1]*wkCX16t8
	F9  *[]map[int]wkCX16t9
	F10 []wkCX16t10
	F11 *wkCX16t11
	F12 map[string]wkCX16t12
	F13 [1]*wkCX16t13
	F14 *[]map[int]wkCX16t14
	F15 []wkCX16t15
}
type wkCX16t11 struct {
	F0  *wkCX16t0
	F1  map[string]wkCX16t1
	F2  [1]*wkCX16t2
	F3  *[]map[int]wkCX16t3
	F4  []wkCX16t4
	F5  *wkCX16t5
	F6  map[string]wkCX16t6
	F7  [1]*wkCX16t7
	F8  *[]map[int]wkCX16t8
	F9  []wkCX16t9
	F10 *wkCX16t10
	F11 map[string]wkCX16t11
	F12 [1]*wkCX16t12
	F13 *[]map[int]wkCX16t13
	F14 []wkCX16t14
	F15 *wkCX16t15
}
type wkCX16t12 struct {
	F0  map[string]wkCX16t0
	F1  [1]*wkCX16t1
	F2  *[]map[int]wkCX16t2
	F3  []wkCX16t3
	F4  *wkCX16t4
	F5  map[string]wkCX16t5
	F6  [1]*wkCX16t6
	F7  *[]map[int]wkCX16t7
	F8  []wkCX16t8
	F9  *wkCX16t9
	F10 map[string]wkCX16t10
	F11 [1]*wkCX16t11
	F12 *[]map[int]wkCX16t12
	F13 []wkCX16t13
	F14 *wkCX16t14
	F15 map[string]wkCX16t15
}
type wkCX16t13 struct {
	F0  [1]*wkCX16t0
	F1  *[]map[int]wkCX16t1
	F2  []wkCX16t2
	F3  *wkCX16t3
	F4  map[string]wkCX16t4
	F5  [1]*wkCX16t5
	F6  *[]map[int]wkCX16t6
	F7  []wkCX16t7
	F8  *wkCX16t8
	F9  map[string]wkCX16t9
	F10 [1]*wkCX16t10
	F11 *[]map[int]wkCX16t11
	F12 []wkCX16t12
	F13 *wkCX16t13
	F14 map[string]wkCX16t14
	F15 [1]*wkCX16t15
}
type wkCX16t14 struct {
	F0  *[]map[int]wkCX16t0
	F1  []wkCX16t1
	F2  *wkCX16t2
	F3  map[string]wkCX16t3
	F4  [1]*wkCX16t4
	F5  *[]map[int]wkCX16t5
	F6  []wkCX16t6
	F7  *wkCX16t7
	F8  map[string]wkCX16t8
	F9  [1]*wkCX16t9
	F10 *[]map[int]wkCX16t10
	F11 []wkCX16t11
	F12 *wkCX16t12
	F13 map[string]wkCX16t13
	F14 [1]*wkCX16t14
	F15 *[]map[int]wkCX16t15
}
type wkCX16t15 struct {
	F0  []wkCX16t0
	F1  *wkCX16t1
	F2  map[string]wkCX16t2
	F3  [1]*wkCX16t3
	F4  *[]map[int]wkCX16t4
	F5  []wkCX16t5
	F6  *wkCX16t6
	F7  map[string]wkCX16t7
	F8  [1]*wkCX16t8
	F9  *[]map[int]wkCX16t9
	F10 []wkCX16t10
	F11 *wkCX16t11
	F12 map[string]wkCX16t12
	F13 [1]*wkCX16t13
	F14 *[]map[int]wkCX16t14
	F15 []wkCX16t15
}
type wkCX24t0 struct {
	F0  []wkCX24t0
	F1  *wkCX24t1
	F2  map[string]wkCX24t2
	F3  [1]*wkCX24t3
	F4  *[]map[int]wkCX24t4
	F5  []wkCX24t5
	F6  *wkCX24t6
	F7  map[string]wkCX24t7
	F8  [1]*wkCX24t8
	F9  *[]map[int]wkCX24t9
	F10 []wkCX24t10
	F11 *wkCX24t11
	F12 map[string]wkCX24t12
	F13 [1]*wkCX24t13
	F14 *[]map[int]wkCX24t14
	F15 []wkCX24t15
	F16 *wkCX24t16
	F17 map[string]wkCX24t17
	F18 [1]*wkCX24t18
	F19 *[]map[int]wkCX24t19
	F20 []wkCX24t20
	F21 *wkCX24t21
	F22 map[string]wkCX24t22
	F23 [1]*wkCX24t23
}
type wkCX24t1 struct {
	F0  *wkCX24t0
	F1  map[string]wkCX24t1
	F2  [1]*wkCX24t2
	F3  *[]map[int]wkCX24t3
	F4  []wkCX24t4
	F5  *wkCX24t5
	F6  map[string]wkCX24t6
	F7  [1]*wkCX24t7
	F8  *[]map[int]wkCX24t8
	F9  []wkCX24t9
	F10 *wkCX24t10
	F11 map[string]wkCX24t11
	F12 [1]*wkCX24t12
	F13 *[]map[int]wkCX24t13
	F14 []wkCX24t14
	F15 *wkCX24t15
	F16 map[string]wkCX24t16
	F17 [1]*wkCX24t17
	F18 *[]map[int]wkCX24t18
	F19 []wkCX24t19
	F20 *wkCX24t20
	F21 map[string]wkCX24t21
	F22 [1]*wkCX24t22
	F23 *[]map[int]wkCX24t23
}
type wkCX24t2 struct {
	F0  map[string]wkCX24t0
	F1  [1]*wkCX24t1
	F2  *[]map[int]wkCX24t2
	F3  []wkCX24t3
	F4  *wkCX24t4
	F5  map[string]wkCX24t5
	F6  [1]*wkCX24t6
	F7  *[]map[int]wkCX24t7
	F8  []wkCX24t8
	F9  *wkCX24t9
	F10 map[string]wkCX24t10
	F11 [1]*wkCX24t11
	F12 *[]map[int]wkCX24t12
	F13 []wkCX24t13
	F14 *wkCX24t14
	F15 map[string]wkCX24t15
	F16 [1]*wkCX24t16
	F17 *[]map[int]wkCX24t17
	F18 []wkCX24t18
	F19 *wkCX24t19
	F20 map[string]wkCX24t20
	F21 [1]*wkCX24t21
	F22 *[]map[int]wkCX24t22
	F23 []wkCX24t23
}
type wkCX24t3 struct {
	F0  [1]*wkCX24t0
	F1  *[]map[int]wkCX24t1
	F2  []wkCX24t2
	F3  *wkCX24t3
	F4  map[string]wkCX24t4
	F5  [1]*wkCX24t5
	F6  *[]map[int]wkCX24t6
	F7  []wkCX24t7
	F8  *wkCX24t8
	F9  map[string]wkCX24t9
	F10 [1]*wkCX24t10
	F11 *[]map[int]wkCX24t11
	F12 []wkCX24t12
	F13 *wkCX24t13
	F14 map[string]wkCX24t14
	F15 [1]*wkCX24t15
	F16 *[]map[int]wkCX24t16
	F17 []wkCX24t17
	F18 *wkCX24t18
	F19 map[string]wkCX24t19
	F20 [1]*wkCX24t20
	F21 *[]map[int]wkCX24t21
	F22 []wkCX24t22
	F23 *wkCX24t23
}
type wkCX24t4 struct {
	F0  *[]map[int]wkCX24t0
	F1  []wkCX24t1
	F2  *wkCX24t2
	F3  map[string]wkCX24t3
	F4  [1]*wkCX24t4
	F5  *[]map[int]wkCX24t5
	F6  []wkCX24t6
	F7  *wkCX24t7
	F8  map[string]wkCX24t8
	F9  [1]*wkCX24t9
	F10 *[]map[int]wkCX24t10
	F11 []wkCX24t11
	F12 *wkCX24t12
	F13 map[string]wkCX24t13
	F14 [1]*wkCX24t14
	F15 *[]map[int]wkCX24t15
	F16 []wkCX24t16
	F17 *wkCX24t17
	F18 map[string]wkCX24t18
	F19 [1]*wkCX24t19
	F20 *[]map[int]wkCX24t20
	F21 []wkCX24t21
	F22 *wkCX24t22
	F23 map[string]wkCX24t23
}
type wkCX24t5 struct {
	F0  []wkCX24t0
	F1  *wkCX24t1
	F2  map[string]wkCX24t2
	F3  [1]*wkCX24t3
	F4  *[]map[int]wkCX24t4
	F5  []wkCX24t5
	F6  *wkCX24t6
	F7  map[string]wkCX24t7
	F8  [1]*wkCX24t8
	F9  *[]map[int]wkCX24t9
	F10 []wkCX24t10
	F11 *wkCX24t11
	F12 map[string]wkCX24t12
	F13 [1]*wkCX24t13
	F14 *[]map[int]wkCX24t14
	F15 []wkCX24t15
	F16 *wkCX24t16
	F17 map[string]wkCX24t17
	F18 [1]*wkCX24t18
	F19 *[]map[int]wkCX24t19
	F20 []wkCX24t20
	F21 *wkCX24t21
	F22 map[string]wkCX24t22
	F23 [1]*wkCX24t23
}
type wkCX24t6 struct {
	F0  *wkCX24t0
	F1  map[string]wkCX24t1
	F2  [1]*wkCX24t2
	F3  *[]map[int]wkCX24t3
	F4  []wkCX24t4
	F5  *wkCX24t5
	F6  map[string]wkCX24t6
	F7  [1]*wkCX24t7
	F8  *[]map[int]wkCX24t8
	F9  []wkCX24t9
	F10 *wkCX24t10
	F11 map[string]wkCX24t11
	F12 [1]*wkCX24t12
	F13 *[]map[int]wkCX24t13
	F14 []wkCX24t14
	F15 *wkCX24t15
	F16 map[string]wkCX24t16
	F17 [1]*wkCX24t17
	F18 *[]map[int]wkCX24t18
	F19 []wkCX24t19
	F20 *wkCX24t20
	F21 map[string]wkCX24t21
	F22 [1]*wkCX24t22
	F23 *[]map[int]wkCX24t23
}
type wkCX24t7 struct {
	F0  map[string]wkCX24t0
	F1  [1]*wkCX24t1
	F2  *[]map[int]wkCX24t2
	F3  []wkCX24t3
	F4  *wkCX24t4
	F5  map[string]wkCX24t5
	F6  [1]*wkCX24t6
	F7  *[]map[int]wkCX24t7
	F8  []wkCX24t8
	F9  *wkCX24t9
	F10 map[string]wkCX24t10
	F11 [1]*wkCX24t11
	F12 *[]map[int]wkCX24t12
	F13 []wkCX24t13
	F14 *wkCX24t14
	F15 map[string]wkCX24t15
	F16 [1]*wkCX24t16
	F17 *[]map[int]wkCX24t17
	F18 []wkCX24t18
	F19 *wkCX24t19
	F20 map[string]wkCX24t20
	F21 [1]*wkCX24t21
	F22 *[]map[int]wkCX24t22
	F23 []wkCX24t23
}
type wkCX24t8 struct {
	F0  [1]*wkCX24t0
	F1  *[]map[int]wkCX24t1
	F2  []wkCX24t2
	F3  *wkCX24t3
	F4  map[string]wkCX24t4
	F5  [1]*wkCX24t5
	F6  *[]map[int]wkCX24t6
	F7  []wkCX24t7
	F8  *wkCX24t8
	F9  map[string]wkCX24t9
	F10 [1]*wkCX24t10
	F11 *[]map[int]wkCX24t11
	F12 []wkCX24t12
	F13 *wkCX24t13
	F14 map[string]wkCX24t14
	F15 [1]*wkCX24t15
	F16 *[]map[int]wkCX24t16
	F17 []wkCX24t17
	F18 *wkCX24t18
	F19 map[string]wkCX24t19
	F20 [1]*wkCX24t20
	F21 *[]map[int]wkCX24t21
	F22 []wkCX24t22
	F23 *wkCX24t23
}
type wkCX24t9 struct {
	F0  *[]map[int]wkCX24t0
	F1  []wkCX24t1
	F2  *wkCX24t2
	F3  map[string]wkCX24t3
	F4  [1]*wkCX24t4
	F5  *[]map[int]wkCX24t5
	F6  []wkCX24t6
	F7  *wkCX24t7
	F8  map[string]wkCX24t8
	F9  [1]*wkCX24t9
	F10 *[]map[int]wkCX24t10
	F11 []wkCX24t11
	F12 *wkCX24t12
	F13 map[string]wkCX24t13
	F14 [1]*wkCX24t14
	F15 *[]map[int]wkCX24t15
	F16 []wkCX24t16
	F17 *wkCX24t17
	F18 map[string]wkCX24t18
	F19 [1]*wkCX24t19
	F20 *[]map[int]wkCX24t20
	F21 []wkCX24t21
	F22 *wkCX24t22
	F23 map[string]wkCX24t23
}
type wkCX24t10 struct {
	F0  []wkCX24t0
	F1  *wkCX24t1
	F2  map[string]wkCX24t2
	F3  [1]*wkCX24t3
	F4  *[]map[int]wkCX24t4
	F5  []wkCX24t5
	F6  *wkCX24t6
	F7  map[string]wkCX24t7
	F8  [1]*wkCX24t8
	F9  *[]map[int]wkCX24t9
	F10 []wkCX24t10
	F11 *wkCX24t11
	F12 map[string]wkCX24t12
	F13 [1]*wkCX24t13
	F14 *[]map[int]wkCX24t14
	F15 []wkCX24t15
	F16 *wkCX24t16
	F17 map[string]wkCX24t17
	F18 [1]*wkCX24t18
	F19 *[]map[int]wkCX24t19
	F20 []wkCX24t20
	F21 *wkCX24t21
	F22 map[string]wkCX24t22
	F23 [1]*wkCX24t23
}
type wkCX24t11 struct {
	F0  *wkCX24t0
	F1  map[string]wkCX24t1
	F2  [1]*wkCX24t2
	F3  *[]map[int]wkCX24t3
	F4  []wkCX24t4
	F5  *wkCX24t5
	F6  map[string]wkCX24t6
	F7  [1]*wkCX24t7
	F8  *[]map[int]wkCX24t8
	F9  []wkCX24t9
	F10 *wkCX24t10
	F11 map[string]wkCX24t11
	F12 [1]*wkCX24t12
	F13 *[]map[int]wkCX24t13
	F14 []wkCX24t14
	F15 *wkCX24t15
	F16 map[string]wkCX24t16
	F17 [1]*wkCX24t17
	F18 *[]map[int]wkCX24t18
	F19 []wkCX24t19
	F20 *wkCX24t20
	F21 map[string]wkCX24t21
	F22 [1]*wkCX24t22
	F23 *[]map[int]wkCX24t23
}
type wkCX24t12 struct {
	F0  map[string]wkCX24t0
	F1  [1]*wkCX24t1
	F2  *[]map[int]wkCX24t2
	F3  []wkCX24t3
	F4  *wkCX24t4
	F5  map[string]wkCX24t5
	F6  [1]*wkCX24t6
	F7  *[]map[int]wkCX24t7
	F8  []wkCX24t8
	F9  *wkCX24t9
	F10 map[string]wkCX24t10
	F11 [1]*wkCX24t11
	F12 *[]map[int]wkCX24t12
	F13 []wkCX24t13
	F14 *wkCX24t14
	F15 map[string]wkCX24t15
	F16 [1]*wkCX24t16
	F17 *[]map[int]wkCX24t17
	F18 []wkCX24t18
	F19 *wkCX24t19
	F20 map[string]wkCX24t20
	F21 [1]*wkCX24t21
	F22 *[]map[int]wkCX24t22
	F23 []wkCX24t23
}
type wkCX24t13 struct {
	F0  [1]*wkCX24t0
	F1  *[]map[int]wkCX24t1
	F2  []wkCX24t2
	F3  *wkCX24t3
	F4  map[string]wkCX24t4
	F5  [1]*wkCX24t5
	F6  *[]map[int]wkCX24t6
	F7  []wkCX24t7
	F8  *wkCX24t8
	F9  map[string]wkCX24t9
	F10 [1]*wkCX24t10
	F11 *[]map[int]wkCX24t11
	F12 []wkCX24t12
	F13 *wkCX24t13
	F14 map[string]wkCX24t14
	F15 [1]*wkCX24t15
	F16 *[]map[int]wkCX24t16
	F17 []wkCX24t17
	F18 *wkCX24t18
	F19 map[string]wkCX24t19
	F20 [1]*wkCX24t20
	F21 *[]map[int]wkCX24t21
	F22 []wkCX24t22
	F23 *wkCX24t23
}
type wkCX24t14 struct {
	F0  *[]map[int]wkCX24t0
	F1  []wkCX24t1
	F2  *wkCX24t2
	F3  map[string]wkCX24t3
	F4  [1]*wkCX24t4
	F5  *[]map[int]wkCX24t5
	F6  []wkCX24t6
	F7  *wkCX24t7
	F8  map[string]wkCX24t8
	F9  [1]*wkCX24t9
	F10 *[]map[int]wkCX24t10
	F11 []wkCX24t11
	F12 *wkCX24t12
	F13 map[string]wkCX24t13
	F14 [1]*wkCX24t14
	F15 *[]map[int]wkCX24t15
	F16 []wkCX24t16
	F17 *wkCX24t17
	F18 map[string]wkCX24t18
	F19 [1]*wkCX24t19
	F20 *[]map[int]wkCX24t20
	F21 []wkCX24t21
	F22 *wkCX24t22
	F23 map[string]wkCX24t23
}
type wkCX24t15 struct {
	F0  []wkCX24t0
	F1  *wkCX24t1
	F2  map[string]wkCX24t2
	F3  [1]*wkCX24t3
	F4  *[]map[int]wkCX24t4
	F5  []wkCX24t5
	F6  *wkCX24t6
	F7  map[string]wkCX24t7
	F8  [1]*wkCX24t8
	F9  *[]map[int]wkCX24t9
	F10 []wkCX24t10
	F11 *wkCX24t11
	F12 map[string]wkCX24t12
	F13 [1]*wkCX24t13
	F14 *[]map[int]wkCX24t14
	F15 []wkCX24t15
	F16 *wkCX24t16
	F17 map[string]wkCX24t17
	F18 [1]*wkCX24t18
	F19 *[]map[int]wkCX24t19
	F20 []wkCX24t20
	F21 *wkCX24t21
	F22 map[string]wkCX24t22
	F23 [1]*wkCX24t23
}
type wkCX24t16 struct {
	F0  *wkCX24t0
	F1  map[string]wkCX24t1
	F2  [1]*wkCX24t2
	F3  *[]map[int]wkCX24t3
	F4  []wkCX24t4
	F5  *wkCX24t5
	F6  map[string]wkCX24t6
	F7  [1]*wkCX24t7
	F8  *[]map[int]wkCX24t8
	F9  []wkCX24t9
	F10 *wkCX24t10
	F11 map[string]wkCX24t11
	F12 [1]*wkCX24t12
	F13 *[]map[int]wkCX24t13
	F14 []wkCX24t14
	F15 *wkCX24t15
	F16 map[string]wkCX24t16
	F17 [1]*wkCX24t17
	F18 *[]map[int]wkCX24t18
	F19 []wkCX24t19
	F20 *wkCX24t20
	F21 map[string]wkCX24t21
	F22 [1]*wkCX24t22
	F23 *[]map[int]wkCX24t23
}
type wkCX24t17 struct {
	F0  map[string]wkCX24t0
	F1  [1]*wkCX24t1
	F2  *[]map[int]wkCX24t2
	F3  []wkCX24t3
	F4  *wkCX24t4
	F5  map[string]wkCX24t5
	F6  [1]*wkCX24t6
	F7  *[]map[int]wkCX24t7
	F8  []wkCX24t8
	F9  *wkCX24t9
	F10 map[string]wkCX24t10
	F11 [1]*wkCX24t11
	F12 *[]map[int]wkCX24t12
	F13 []wkCX24t13
	F14 *wkCX24t14
	F15 map[string]wkCX24t15
	F16 [1]*wkCX24t16
	F17 *[]map[int]wkCX24t17
	F18 []wkCX24t18
	F19 *wkCX24t19
	F20 map[string]wkCX24t20
	F21 [1]*wkCX24t21
	F22 *[]map[int]wkCX24t22
	F23 []wkCX24t23
}
type wkCX24t18 struct {
	F0  [1]*wkCX24t0
	F1  *[]map[int]wkCX24t1
	F2  []wkCX24t2
	F3  *wkCX24t3
	F4  map[string]wkCX24t4
	F5  [1]*wkCX24t5
	F6  *[]map[int]wkCX24t6
	F7  []wkCX24t7
	F8  *wkCX24t8
	F9  map[string]wkCX24t9
	F10 [1]*wkCX24t10
	F11 *[]map[int]wkCX24t11
	F12 []wkCX24t12
	F13 *wkCX24t13
	F14 map[string]wkCX24t14
	F15 [1]*wkCX24t15
	F16 *[]map[int]wkCX24t16
	F17 []wkCX24t17
	F18 *wkCX24t18
	F19 map[string]wkCX24t19
	F20 [1]*wkCX24t20
	F21 *[]map[int]wkCX24t21
	F22 []wkCX24t22
	F23 *wkCX24t23
}
type wkCX24t19 struct {
	F0  *[]map[int]wkCX24t0
	F1  []wkCX24t1
	F2  *wkCX24t2
	F3  map[string]wkCX24t3
	F4  [1]*wkCX24t4
	F5  *[]map[int]wkCX24t5
	F6  []wkCX24t6
	F7  *wkCX24t7
	F8  map[string]wkCX24t8
	F9  [1]*wkCX24t9
	F10 *[]map[int]wkCX24t10
	F11 []wkCX24t11
	F12 *wkCX24t12
	F13 map[string]wkCX24t13
	F14 [1]*wkCX24t14
	F15 *[]map[int]wkCX24t15
	F16 []wkCX24t16
	F17 *wkCX24t17
	F18 map[string]wkCX24t18
	F19 [1]*wkCX24t19
	F20 *[]map[int]wkCX24t20
	F21 []wkCX24t21
	F22 *wkCX24t22
	F23 map[string]wkCX24t23
}
type wkCX24t20 struct {
	F0  []wkCX24t0
	F1  *wkCX24t1
	F2  map[string]wkCX24t2
	F3  [1]*wkCX24t3
	F4  *[]map[int]wkCX24t4
	F5  []wkCX24t5
	F6  *wkCX24t6
	F7  map[string]wkCX24t7
	F8  [1]*wkCX24t8
	F9  *[]map[int]wkCX24t9
	F10 []wkCX24t10
	F11 *wkCX24t11
	F12 map[string]wkCX24t12
	F13 [1]*wkCX24t13
	F14 *[]map[int]wkCX24t14
	F15 []wkCX24t15
	F16 *wkCX24t16
	F17 map[string]wkCX24t17
	F18 [1]*wkCX24t18
	F19 *[]map[int]wkCX24t19
	F20 []wkCX24t20
	F21 *wkCX24t21
	F22 map[string]wkCX24t22
	F23 [1]*wkCX24t23
}
type wkCX24t21 struct {
	F0  *wkCX24t0
	F1  map[string]wkCX24t1
	F2  [1]*wkCX24t2
	F3  *[]map[int]wkCX24t3
	F4  []wkCX24t4
	F5  *wkCX24t5
	F6  map[string]wkCX24t6
	F7  [1]*wkCX24t7
	F8  *[]map[int]wkCX24t8
	F9  []wkCX24t9
	F10 *wkCX24t10
	F11 map[string]wkCX24t11
	F12 [1]*wkCX24t12
	F13 *[]map[int]wkCX24t13
	F14 []wkCX24t14
	F15 *wkCX24t15
	F16 map[string]wkCX24t16
	F17 [1]*wkCX24t17
	F18 *[]map[int]wkCX24t18
	F19 []wkCX24t19
	F20 *wkCX24t20
	F21 map[string]wkCX24t21
	F22 [1]*wkCX24t22
	F23 *[]map[int]wkCX24t23
}
type wkCX24t22 struct {
	F0  map[string]wkCX24t0
	F1  [1]*wkCX24t1
	F2  *[]map[int]wkCX24t2
	F3  []wkCX24t3
	F4  *wkCX24t4
	F5  map[string]wkCX24t5
	F6  [1]*wkCX24t6
	F7  *[]map[int]wkCX24t7
	F8  []wkCX24t8
	F9  *wkCX24t9
	F10 map[string]wkCX24t10
	F11 [1]*wkCX24t11
	F12 *[]map[int]wkCX24t12
	F13 []wkCX24t13
	F14 *wkCX24t14
	F15 map[string]wkCX24t15
	F16 [1]*wkCX24t16
	F17 *[]map[int]wkCX24t17
	F18 []wkCX24t18
	F19 *wkCX24t19
	F20 map[string]wkCX24t20
	F21 [1]*wkCX24t21
	F22 *[]map[int]wkCX24t22
	F23 []wkCX24t23
}
type wkCX24t23 struct {
	F0  [1]*wkCX24t0
	F1  *[]map[int]wkCX24t1
	F2  []wkCX24t2
	F3  *wkCX24t3
	F4  map[string]wkCX24t4
	F5  [1]*wkCX24t5
	F6  *[]map[int]wkCX24t6
	F7  []wkCX24t7
	F8  *wkCX24t8
	F9  map[string]wkCX24t9
	F10 [1]*wkCX24t10
	F11 *[]map[int]wkCX24t11
	F12 []wkCX24t12
	F13 *wkCX24t13
	F14 map[string]wkCX24t14
	F15 [1]*wkCX24t15
	F16 *[]map[int]wkCX24t16
	F17 []wkCX24t17
	F18 *wkCX24t18
	F19 map[string]wkCX24t19
	F20 [1]*wkCX24t20
	F21 *[]map[int]wkCX24t21
	F22 []wkCX24t22
	F23 *wkCX24t23
}
type wkDX4t0 struct{ A int }
type wkDX4t1 struct {
	A *wkDX4t0
	B map[string]wkDX4t0
	C [1]*wkDX4t0
}
type wkDX4t2 struct {
	A map[string]wkDX4t1
	B [1]*wkDX4t1
	C *[]map[int]wkDX4t1
}
type wkDX4t3 struct {
	A [1]*wkDX4t2
	B *[]map[int]wkDX4t2
	C []wkDX4t2
}
type wkDX4t4 struct {
	A *[]map[int]wkDX4t3
	B []wkDX4t3
	C *wkDX4t3
}
type wkDX8t0 struct{ A int }
type wkDX8t1 struct {
	A *wkDX8t0
	B map[string]wkDX8t0
	C [1]*wkDX8t0
}
type wkDX8t2 struct {
	A map[string]wkDX8t1
	B [1]*wkDX8t1
	C *[]map[int]wkDX8t1
}
type wkDX8t3 struct {
	A [1]*wkDX8t2
	B *[]map[int]wkDX8t2
	C []wkDX8t2
}
type wkDX8t4 struct {
	A *[]map[int]wkDX8t3
	B []wkDX8t3
	C *wkDX8t3
}
type wkDX8t5 struct {
	A []wkDX8t4
	B *wkDX8t4
	C map[string]wkDX8t4
}
type wkDX8t6 struct {
	A *wkDX8t5
	B map[string]wkDX8t5
	C [1]*wkDX8t5
}
type wkDX8t7 struct {
	A map[string]wkDX8t6
	B [1]*wkDX8t6
	C *[]map[int]wkDX8t6
}
type wkDX8t8 struct {
	A [1]*wkDX8t7
	B *[]map[int]wkDX8t7
	C []wkDX8t7
}
type wkDX11t0 struct{ A int }
type wkDX11t1 struct {
	A *wkDX11t0
	B map[string]wkDX11t0
	C [1]*wkDX11t0
}
type wkDX11t2 struct {
	A map[string]wkDX11t1
	B [1]*wkDX11t1
	C *[]map[int]wkDX11t1
}
type wkDX11t3 struct {
	A [1]*wkDX11t2
	B *[]map[int]wkDX11t2
	C []wkDX11t2
}
type wkDX11t4 struct {
	A *[]map[int]wkDX11t3
	B []wkDX11t3
	C *wkDX11t3
}
type wkDX11t5 struct {
	A []wkDX11t4
	B *wkDX11t4
	C map[string]wkDX11t4
}
type wkDX11t6 struct {
	A *wkDX11t5
	B map[string]wkDX11t5
	C [1]*wkDX11t5
}
type wkDX11t7 struct {
	A map[string]wkDX11t6
	B [1]*wkDX11t6
	C *[]map[int]wkDX11t6
}
type wkDX11t8 struct {
	A [1]*wkDX11t7
	B *[]map[int]wkDX11t7
	C []wkDX11t7
}
type wkDX11t9 struct {
	A *[]map[int]wkDX11t8
	B []wkDX11t8
	C *wkDX11t8
}
type wkDX11t10 struct {
	A []wkDX11t9
	B *wkDX11t9
	C map[string]wkDX11t9
}
type wkDX11t11 struct {
	A *wkDX11t10
	B map[string]wkDX11t10
	C [1]*wkDX11t10
}
type wkDX13t0 struct{ A int }
type wkDX13t1 struct {
	A *wkDX13t0
	B map[string]wkDX13t0
	C [1]*wkDX13t0
}
type wkDX13t2 struct {
	A map[string]wkDX13t1
	B [1]*wkDX13t1
	C *[]map[int]wkDX13t1
}
type wkDX13t3 struct {
	A [1]*wkDX13t2
	B *[]map[int]wkDX13t2
	C []wkDX13t2
}
type wkDX13t4 struct {
	A *[]map[int]wkDX13t3
	B []wkDX13t3
	C *wkDX13t3
}
type wkDX13t5 struct {
	A []wkDX13t4
	B *wkDX13t4
	C map[string]wkDX13t4
}
type wkDX13t6 struct {
	A *wkDX13t5
	B map[string]wkDX13t5
	C [1]*wkDX13t5
}
type wkDX13t7 struct {
	A map[string]wkDX13t6
	B [1]*wkDX13t6
	C *[]map[int]wkDX13t6
}
type wkDX13t8 struct {
	A [1]*wkDX13t7
	B *[]map[int]wkDX13t7
	C []wkDX13t7
}
type wkDX13t9 struct {
	A *[]map[int]wkDX13t8
	B []wkDX13t8
	C *wkDX13t8
}
type wkDX13t10 struct {
	A []wkDX13t9
	B *wkDX13t9
	C map[string]wkDX13t9
}
type wkDX13t11 struct {
	A *wkDX13t10
	B map[string]wkDX13t10
	C [1]*wkDX13t10
}
type wkDX13t12 struct {
	A map[string]wkDX13t11
	B [1]*wkDX13t11
	C *[]map[int]wkDX13t11
}
type wkDX13t13 struct {
	A [1]*wkDX13t12
	B *[]map[int]wkDX13t12
	C []wkDX13t12
}
type wkDX16t0 struct{ A int }
type wkDX16t1 struct {
	A *wkDX16t0
	B map[string]wkDX16t0
	C [1]*wkDX16t0
}
type wkDX16t2 struct {
	A map[string]wkDX16t1
	B [1]*wkDX16t1
	C *[]map[int]wkDX16t1
}
type wkDX16t3 struct {
	A [1]*wkDX16t2
	B *[]map[int]wkDX16t2
	C []wkDX16t2
}
type wkDX16t4 struct {
	A *[]map[int]wkDX16t3
	B []wkDX16t3
	C *wkDX16t3
}
type wkDX16t5 struct {
	A []wkDX16t4
	B *wkDX16t4
	C map[string]wkDX16t4
}
type wkDX16t6 struct {
	A *wkDX16t5
	B map[string]wkDX16t5
	C [1]*wkDX16t5
}
type wkDX16t7 struct {
	A map[string]wkDX16t6
	B [1]*wkDX16t6
	C *[]map[int]wkDX16t6
}
type wkDX16t8 struct {
	A [1]*wkDX16t7
	B *[]map[int]wkDX16t7
	C []wkDX16t7
}
type wkDX16t9 struct {
	A *[]map[int]wkDX16t8
	B []wkDX16t8
	C *wkDX16t8
}
type wkDX16t10 struct {
	A []wkDX16t9
	B *wkDX16t9
	C map[string]wkDX16t9
}
type wkDX16t11 struct {
	A *wkDX16t10
	B map[string]wkDX16t10
	C [1]*wkDX16t10
}
type wkDX16t12 struct {
	A map[string]wkDX16t11
	B [1]*wkDX16t11
	C *[]map[int]wkDX16t11
}
type wkDX16t13 struct {
	A [1]*wkDX16t12
	B *[]map[int]wkDX16t12
	C []wkDX16t12
}
type wkDX16t14 struct {
	A *[]map[int]wkDX16t13
	B []wkDX16t13
	C *wkDX16t13
}
type wkDX16t15 struct {
	A []wkDX16t14
	B *wkDX16t14
	C map[string]wkDX16t14
}
type wkDX16t16 struct {
	A *wkDX16t15
	B map[string]wkDX16t15
	C [1]*wkDX16t15
}
type wkDX40t0 struct{ A int }
type wkDX40t1 struct {
	A *wkDX40t0
	B map[string]wkDX40t0
	C [1]*wkDX40t0
}
type wkDX40t2 struct {
	A map[string]wkDX40t1
	B [1]*wkDX40t1
	C *[]map[int]wkDX40t1
}
type wkDX40t3 struct {
	A [1]*wkDX40t2
	B *[]map[int]wkDX40t2
	C []wkDX40t2
}
type wkDX40t4 struct {
	A *[]map[int]wkDX40t3
	B []wkDX40t3
	C *wkDX40t3
}
type wkDX40t5 struct {
	A []wkDX40t4
	B *wkDX40t4
	C map[string]wkDX40t4
}
type wkDX40t6 struct {
	A *wkDX40t5
	B map[string]wkDX40t5
	C [1]*wkDX40t5
}
type wkDX40t7 struct {
	A map[string]wkDX40t6
	B [1]*wkDX40t6
	C *[]map[int]wkDX40t6
}
type wkDX40t8 struct {
	A [1]*wkDX40t7
	B *[]map[int]wkDX40t7
	C []wkDX40t7
}
type wkDX40t9 struct {
	A *[]map[int]wkDX40t8
	B []wkDX40t8
	C *wkDX40t8
}
type wkDX40t10 struct {
	A []wkDX40t9
	B *wkDX40t9
	C map[string]wkDX40t9
}
type wkDX40t11 struct {
	A *wkDX40t10
	B map[string]wkDX40t10
	C [1]*wkDX40t10
}
type wkDX40t12 struct {
	A map[string]wkDX40t11
	B [1]*wkDX40t11
	C *[]map[int]wkDX40t11
}
type wkDX40t13 struct {
	A [1]*wkDX40t12
	B *[]map[int]wkDX40t12
	C []wkDX40t12
}
type wkDX40t14 struct {
	A *[]map[int]wkDX40t13
	B []wkDX40t13
	C *wkDX40t13
}
type wkDX40t15 struct {
	A []wkDX40t14
	B *wkDX40t14
	C map[string]wkDX40t14
}
type wkDX40t16 struct {
	A *wkDX40t15
	B map[string]wkDX40t15
	C [1]*wkDX40t15
}
type wkDX40t17 struct {
	A map[string]wkDX40t16
	B [1]*wkDX40t16
	C *[]map[int]wkDX40t16
}
type wkDX40t18 struct {
	A [1]*wkDX40t17
	B *[]map[int]wkDX40t17
	C []wkDX40t17
}
type wkDX40t19 struct {
	A *[]map[int]wkDX40t18
	B []wkDX40t18
	C *wkDX40t18
}
type wkDX40t20 struct {
	A []wkDX40t19
	B *wkDX40t19
	C map[string]wkDX40t19
}
type wkDX40t21 struct {
	A *wkDX40t20
	B map[string]wkDX40t20
	C [1]*wkDX40t20
}
type wkDX40t22 struct {
	A map[string]wkDX40t21
	B [1]*wkDX40t21
	C *[]map[int]wkDX40t21
}
type wkDX40t23 struct {
	A [1]*wkDX40t22
	B *[]map[int]wkDX40t22
	C []wkDX40t22
}
type wkDX40t24 struct {
	A *[]map[int]wkDX40t23
	B []wkDX40t23
	C *wkDX40t23
}
type wkDX40t25 struct {
	A []wkDX40t24
	B *wkDX40t24
	C map[string]wkDX40t24
}
type wkDX40t26 struct {
	A *wkDX40t25
	B map[string]wkDX40t25
	C [1]*wkDX40t25
}
type wkDX40t27 struct {
	A map[string]wkDX40t26
	B [1]*wkDX40t26
	C *[]map[int]wkDX40t26
}
type wkDX40t28 struct {
	A [1]*wkDX40t27
	B *[]map[int]wkDX40t27
	C []wkDX40t27
}
type wkDX40t29 struct {
	A *[]map[int]wkDX40t28
	B []wkDX40t28
	C *wkDX40t28
}
type wkDX40t30 struct {
	A []wkDX40t29
	B *wkDX40t29
	C map[string]wkDX40t29
}
type wkDX40t31 struct {
	A *wkDX40t30
	B map[string]wkDX40t30
	C [1]*wkDX40t30
}
type wkDX40t32 struct {
	A map[string]wkDX40t31
	B [1]*wkDX40t31
	C *[]map[int]wkDX40t31
}
type wkDX40t33 struct {
	A [1]*wkDX40t32
	B *[]map[int]wkDX40t32
	C []wkDX40t32
}
type wkDX40t34 struct {
	A *[]map[int]wkDX40t33
	B []wkDX40t33
	C *wkDX40t33
}
type wkDX40t35 struct {
	A []wkDX40t34
	B *wkDX40t34
	C map[string]wkDX40t34
}
type wkDX40t36 struct {
	A *wkDX40t35
	B map[string]wkDX40t35
	C [1]*wkDX40t35
}
type wkDX40t37 struct {
	A map[string]wkDX40t36
	B [1]*wkDX40t36
	C *[]map[int]wkDX40t36
}
type wkDX40t38 struct {
	A [1]*wkDX40t37
	B *[]map[int]wkDX40t37
	C []wkDX40t37
}
type wkDX40t39 struct {
	A *[]map[int]wkDX40t38
	B []wkDX40t38
	C *wkDX40t38
}
type wkDX40t40 struct {
	A []wkDX40t39
	B *wkDX40t39
	C map[string]wkDX40t39
}
type wkOX8t0 struct {
	F1 *wkOX8t1
	F2 map[string]wkOX8t2
	F3 [1]*wkOX8t3
	F4 *[]map[int]wkOX8t4
	F5 []wkOX8t5
	F6 *wkOX8t6
	F7 map[string]wkOX8t7
}
type wkOX8t1 struct {
	F2 [1]*wkOX8t2
	F3 *[]map[int]wkOX8t3
	F4 []wkOX8t4
	F5 *wkOX8t5
	F6 map[string]wkOX8t6
	F7 [1]*wkOX8t7
}
type wkOX8t2 struct {
	F3 []wkOX8t3
	F4 *wkOX8t4
	F5 map[string]wkOX8t5
	F6 [1]*wkOX8t6
	F7 *[]map[int]wkOX8t7
}
type wkOX8t3 struct {
	F4 map[string]wkOX8t4
	F5 [1]*wkOX8t5
	F6 *[]map[int]wkOX8t6
	F7 []wkOX8t7
}
type wkOX8t4 struct {
	F5 *[]map[int]wkOX8t5
	F6 []wkOX8t6
	F7 *wkOX8t7
}
type wkOX8t5 struct {
	F6 *wkOX8t6
	F7 map[string]wkOX8t7
}
type wkOX8t6 struct{ F7 [1]*wkOX8t7 }
type wkOX8t7 struct{ F0 map[string]wkOX8t0 }
type wkOX16t0 struct {
	F1  *wkOX16t1
	F2  map[string]wkOX16t2
	F3  [1]*wkOX16t3
	F4  *[]map[int]wkOX16t4
	F5  []wkOX16t5
	F6  *wkOX16t6
	F7  map[string]wkOX16t7
	F8  [1]*wkOX16t8
	F9  *[]map[int]wkOX16t9
	F10 []wkOX16t10
	F11 *wkOX16t11
	F12 map[string]wkOX16t12
	F13 [1]*wkOX16t13
	F14 *[]map[int]wkOX16t14
	F15 []wkOX16t15
}
type wkOX16t1 struct {
	F2  [1]*wkOX16t2
	F3  *[]map[int]wkOX16t3
	F4  []wkOX16t4
	F5  *wkOX16t5
	F6  map[string]wkOX16t6
	F7  [1]*wkOX16t7
	F8  *[]map[int]wkOX16t8
	F9  []wkOX16t9
	F10 *wkOX16t10
	F11 map[string]wkOX16t11
	F12 [1]*wkOX16t12
	F13 *[]map[int]wkOX16t13
	F14 []wkOX16t14
	F15 *wkOX16t15
}
type wkOX16t2 struct {
	F3  []wkOX16t3
	F4  *wkOX16t4
	F5  map[string]wkOX16t5
	F6  [1]*wkOX16t6
	F7  *[]map[int]wkOX16t7
	F8  []wkOX16t8
	F9  *wkOX16t9
	F10 map[string]wkOX16t10
	F11 [1]*wkOX16t11
	F12 *[]map[int]wkOX16t12
	F13 []wkOX16t13
	F14 *wkOX16t14
	F15 map[string]wkOX16t15
}
type wkOX16t3 struct {
	F4  map[string]wkOX16t4
	F5  [1]*wkOX16t5
	F6  *[]map[int]wkOX16t6
	F7  []wkOX16t7
	F8  *wkOX16t8
	F9  map[string]wkOX16t9
	F10 [1]*wkOX16t10
	F11 *[]map[int]wkOX16t11
	F12 []wkOX16t12
	F13 *wkOX16t13
	F14 map[string]wkOX16t14
	F15 [1]*wkOX16t15
}
type wkOX16t4 struct {
	F5  *[]map[int]wkOX16t5
	F6  []wkOX16t6
	F7  *wkOX16t7
	F8  map[string]wkOX16t8
	F9  [1]*wkOX16t9
	F10 *[]map[int]wkOX16t10
	F11 []wkOX16t11
	F12 *wkOX16t12
	F13 map[string]wkOX16t13
	F14 [1]*wkOX16t14
	F15 *[]map[int]wkOX16t15
}
type wkOX16t5 struct {
	F6  *wkOX16t6
	F7  map[string]wkOX16t7
	F8  [1]*wkOX16t8
	F9  *[]map[int]wkOX16t9
	F10 []wkOX16t10
	F11 *wkOX16t11
	F12 map[string]wkOX16t12
	F13 [1]*wkOX16t13
	F14 *[]map[int]wkOX16t14
	F15 []wkOX16t15
}
type wkOX16t6 struct {
	F7  [1]*wkOX16t7
	F8  *[]map[int]wkOX16t8
	F9  []wkOX16t9
	F10 *wkOX16t10
	F11 map[string]wkOX16t11
	F12 [1]*wkOX16t12
	F13 *[]map[int]wkOX16t13
	F14 []wkOX16t14
	F15 *wkOX16t15
}
type wkOX16t7 struct {
	F8  []wkOX16t8
	F9  *wkOX16t9
	F10 map[string]wkOX16t10
	F11 [1]*wkOX16t11
	F12 *[]map[int]wkOX16t12
	F13 []wkOX16t13
	F14 *wkOX16t14
	F15 map[string]wkOX16t15
}
type wkOX16t8 struct {
	F9  map[string]wkOX16t9
	F10 [1]*wkOX16t10
	F11 *[]map[int]wkOX16t11
	F12 []wkOX16t12
	F13 *wkOX16t13
	F14 map[string]wkOX16t14
	F15 [1]*wkOX16t15
}
type wkOX16t9 struct {
	F10 *[]map[int]wkOX16t10
	F11 []wkOX16t11
	F12 *wkOX16t12
	F13 map[string]wkOX16t13
	F14 [1]*wkOX16t14
	F15 *[]map[int]wkOX16t15
}
type wkOX16t10 struct {
	F11 *wkOX16t11
	F12 map[string]wkOX16t12
	F13 [1]*wkOX16t13
	F14 *[]map[int]wkOX16t14
	F15 []wkOX16t15
}
type wkOX16t11 struct {
	F12 [1]*wkOX16t12
	F13 *[]map[int]wkOX16t13
	F14 []wkOX16t14
	F15 *wkOX16t15
}
type wkOX16t12 struct {
	F13 []wkOX16t13
	F14 *wkOX16t14
	F15 map[string]wkOX16t15
}
type wkOX16t13 struct {
	F14 map[string]wkOX16t14
	F15 [1]*wkOX16t15
}
type wkOX16t14 struct{ F15 *[]map[int]wkOX16t15 }
type wkOX16t15 struct{ F0 []wkOX16t0 }
type wkOX20t0 struct {
	F1  *wkOX20t1
	F2  map[string]wkOX20t2
	F3  [1]*wkOX20t3
	F4  *[]map[int]wkOX20t4
	F5  []wkOX20t5
	F6  *wkOX20t6
	F7  map[string]wkOX20t7
	F8  [1]*wkOX20t8
	F9  *[]map[int]wkOX20t9
	F10 []wkOX20t10
	F11 *wkOX20t11
	F12 map[string]wkOX20t12
	F13 [1]*wkOX20t13
	F14 *[]map[int]wkOX20t14
	F15 []wkOX20t15
	F16 *wkOX20t16
	F17 map[string]wkOX20t17
	F18 [1]*wkOX20t18
	F19 *[]map[int]wkOX20t19
}
type wkOX20t1 struct {
	F2  [1]*wkOX20t2
	F3  *[]map[int]wkOX20t3
	F4  []wkOX20t4
	F5  *wkOX20t5
	F6  map[string]wkOX20t6
	F7  [1]*wkOX20t7
	F8  *[]map[int]wkOX20t8
	F9  []wkOX20t9
	F10 *wkOX20t10
	F11 map[string]wkOX20t11
	F12 [1]*wkOX20t12
	F13 *[]map[int]wkOX20t13
	F14 []wkOX20t14
	F15 *wkOX20t15
	F16 map[string]wkOX20t16
	F17 [1]*wkOX20t17
	F18 *[]map[int]wkOX20t18
	F19 []wkOX20t19
}
type wkOX20t2 struct {
	F3  []wkOX20t3
	F4  *wkOX20t4
	F5  map[string]wkOX20t5
	F6  [1]*wkOX20t6
	F7  *[]map[int]wkOX20t7
	F8  []wkOX20t8
	F9  *wkOX20t9
	F10 map[string]wkOX20t10
	F11 [1]*wkOX20t11
	F12 *[]map[int]wkOX20t12
	F13 []wkOX20t13
	F14 *wkOX20t14
	F15 map[string]wkOX20t15
	F16 [1]*wkOX20t16
	F17 *[]map[int]wkOX20t17
	F18 []wkOX20t18
	F19 *wkOX20t19
}
type wkOX20t3 struct {
	F4  map[string]wkOX20t4
	F5  [1]*wkOX20t5
	F6  *[]map[int]wkOX20t6
	F7  []wkOX20t7
	F8  *wkOX20t8
	F9  map[string]wkOX20t9
	F10 [1]*wkOX20t10
	F11 *[]map[int]wkOX20t11
	F12 []wkOX20t12
	F13 *wkOX20t13
	F14 map[string]wkOX20t14
	F15 [1]*wkOX20t15
	F16 *[]map[int]wkOX20t16
	F17 []wkOX20t17
	F18 *wkOX20t18
	F19 map[string]wkOX20t19
}
type wkOX20t4 struct {
	F5  *[]map[int]wkOX20t5
	F6  []wkOX20t6
	F7  *wkOX20t7
	F8  map[string]wkOX20t8
	F9  [1]*wkOX20t9
	F10 *[]map[int]wkOX20t10
	F11 []wkOX20t11
	F12 *wkOX20t12
	F13 map[string]wkOX20t13
	F14 [1]*wkOX20t14
	F15 *[]map[int]wkOX20t15
	F16 []wkOX20t16
	F17 *wkOX20t17
	F18 map[string]wkOX20t18
	F19 [1]*wkOX20t19
}
type wkOX20t5 struct {
	F6  *wkOX20t6
	F7  map[string]wkOX20t7
	F8  [1]*wkOX20t8
	F9  *[]map[int]wkOX20t9
	F10 []wkOX20t10
	F11 *wkOX20t11
	F12 map[string]wkOX20t12
	F13 [1]*wkOX20t13
	F14 *[]map[int]wkOX20t14
	F15 []wkOX20t15
	F16 *wkOX20t16
	F17 map[string]wkOX20t17
	F18 [1]*wkOX20t18
	F19 *[]map[int]wkOX20t19
}
type wkOX20t6 struct {
	F7  [1]*wkOX20t7
	F8  *[]map[int]wkOX20t8
	F9  []wkOX20t9
	F10 *wkOX20t10
	F11 map[string]wkOX20t11
	F12 [1]*wkOX20t12
	F13 *[]map[int]wkOX20t13
	F14 []wkOX20t14
	F15 *wkOX20t15
	F16 map[string]wkOX20t16
	F17 [1]*wkOX20t17
	F18 *[]map[int]wkOX20t18
	F19 []wkOX20t19
}
type wkOX20t7 struct {
	F8  []wkOX20t8
	F9  *wkOX20t9
	F10 map[string]wkOX20t10
	F11 [1]*wkOX20t11
	F12 *[]map[int]wkOX20t12
	F13 []wkOX20t13
	F14 *wkOX20t14
	F15 map[string]wkOX20t15
	F16 [1]*wkOX20t16
	F17 *[]map[int]wkOX20t17
	F18 []wkOX20t18
	F19 *wkOX20t19
}
type wkOX20t8 struct {
	F9  map[string]wkOX20t9
	F10 [1]*wkOX20t10
	F11 *[]map[int]wkOX20t11
	F12 []wkOX20t12
	F13 *wkOX20t13
	F14 map[string]wkOX20t14
	F15 [1]*wkOX20t15
	F16 *[]map[int]wkOX20t16
	F17 []wkOX20t17
	F18 *wkOX20t18
	F19 map[string]wkOX20t19
}
type wkOX20t9 struct {
	F10 *[]map[int]wkOX20t10
	F11 []wkOX20t11
	F12 *wkOX20t12
	F13 map[string]wkOX20t13
	F14 [1]*wkOX20t14
	F15 *[]map[int]wkOX20t15
	F16 []wkOX20t16
	F17 *wkOX20t17
	F18 map[string]wkOX20t18
	F19 [1]*wkOX20t19
}
type wkOX20t10 struct {
	F11 *wkOX20t11
	F12 map[string]wkOX20t12
	F13 [1]*wkOX20t13
	F14 *[]map[int]wkOX20t14
	F15 []wkOX20t15
	F16 *wkOX20t16
	F17 map[string]wkOX20t17
	F18 [1]*wkOX20t18
	F19 *[]map[int]wkOX20t19
}
type wkOX20t11 struct {
	F12 [1]*wkOX20t12
	F13 *[]map[int]wkOX20t13
	F14 []wkOX20t14
	F15 *wkOX20t15
	F16 map[string]wkOX20t16
	F17 [1]*wkOX20t17
	F18 *[]map[int]wkOX20t18
	F19 []wkOX20t19
}
type wkOX20t12 struct {
	F13 []wkOX20t13
	F14 *wkOX20t14
	F15 map[string]wkOX20t15
	F16 [1]*wkOX20t16
	F17 *[]map[int]wkOX20t17
	F18 []wkOX20t18
	F19 *wkOX20t19
}
type wkOX20t13 struct {
	F14 map[string]wkOX20t14
	F15 [1]*wkOX20t15
	F16 *[]map[int]wkOX20t16
	F17 []wkOX20t17
	F18 *wkOX20t18
	F19 map[string]wkOX20t19
}
type wkOX20t14 struct {
	F15 *[]map[int]wkOX20t15
	F16 []wkOX20t16
	F17 *wkOX20t17
	F18 map[string]wkOX20t18
	F19 [1]*wkOX20t19
}
type wkOX20t15 struct {
	F16 *wkOX20t16
	F17 map[string]wkOX20t17
	F18 [1]*wkOX20t18
	F19 *[]map[int]wkOX20t19
}
type wkOX20t16 struct {
	F17 [1]*wkOX20t17
	F18 *[]map[int]wkOX20t18
	F19 []wkOX20t19
}
type wkOX20t17 struct {
	F18 []wkOX20t18
	F19 *wkOX20t19
}
type wkOX20t18 struct{ F19 map[string]wkOX20t19 }
type wkOX20t19 struct{ F0 *[]map[int]wkOX20t0 }
type wkOX24t0 struct {
	F1  *wkOX24t1
	F2  map[string]wkOX24t2
	F3  [1]*wkOX24t3
	F4  *[]map[int]wkOX24t4
	F5  []wkOX24t5
	F6  *wkOX24t6
	F7  map[string]wkOX24t7
	F8  [1]*wkOX24t8
	F9  *[]map[int]wkOX24t9
	F10 []wkOX24t10
	F11 *wkOX24t11
	F12 map[string]wkOX24t12
	F13 [1]*wkOX24t13
	F14 *[]map[int]wkOX24t14
	F15 []wkOX24t15
	F16 *wkOX24t16
	F17 map[string]wkOX24t17
	F18 [1]*wkOX24t18
	F19 *[]map[int]wkOX24t19
	F20 []wkOX24t20
	F21 *wkOX24t21
	F22 map[string]wkOX24t22
	F23 [1]*wkOX24t23
}
type wkOX24t1 struct {
	F2  [1]*wkOX24t2
	F3  *[]map[int]wkOX24t3
	F4  []wkOX24t4
	F5  *wkOX24t5
	F6  map[string]wkOX24t6
	F7  [1]*wkOX24t7
	F8  *[]map[int]wkOX24t8
	F9  []wkOX24t9
	F10 *wkOX24t10
	F11 map[string]wkOX24t11
	F12 [1]*wkOX24t12
	F13 *[]map[int]wkOX24t13
	F14 []wkOX24t14
	F15 *wkOX24t15
	F16 map[string]wkOX24t16
	F17 [1]*wkOX24t17
	F18 *[]map[int]wkOX24t18
	F19 []wkOX24t19
	F20 *wkOX24t20
	F21 map[string]wkOX24t21
	F22 [1]*wkOX24t22
	F23 *[]map[int]wkOX24t23
}
type wkOX24t2 struct {
	F3  []wkOX24t3
	F4  *wkOX24t4
	F5  map[string]wkOX24t5
	F6  [1]*wkOX24t6
	F7  *[]map[int]wkOX24t7
	F8  []wkOX24t8
	F9  *wkOX24t9
	F10 map[string]wkOX24t10
	F11 [1]*wkOX24t11
	F12 *[]map[int]wkOX24t12
	F13 []wkOX24t13
	F14 *wkOX24t14
	F15 map[string]wkOX24t15
	F16 [1]*wkOX24t16
	F17 *[]map[int]wkOX24t17
	F18 []wkOX24t18
	F19 *wkOX24t19
	F20 map[string]wkOX24t20
	F21 [1]*wkOX24t21
	F22 *[]map[int]wkOX24t22
	F23 []wkOX24t23
}
type wkOX24t3 struct {
	F4  map[string]wkOX24t4
	F5  [1]*wkOX24t5
	F6  *[]map[int]wkOX24t6
	F7  []wkOX24t7
	F8  *wkOX24t8
	F9  map[string]wkOX24t9
	F10 [1]*wkOX24t10
	F11 *[]map[int]wkOX24t11
	F12 []wkOX24t12
	F13 *wkOX24t13
	F14 map[string]wkOX24t14
	F15 [1]*wkOX24t15
	F16 *[]map[int]wkOX24t16
	F17 []wkOX24t17
	F18 *wkOX24t18
	F19 map[string]wkOX24t19
	F20 [1]*wkOX24t20
	F21 *[]map[int]wkOX24t21
	F22 []wkOX24t22
	F23 *wkOX24t23
}
type wkOX24t4 struct {
	F5  *[]map[int]wkOX24t5
	F6  []wkOX24t6
	F7  *wkOX24t7
	F8  map[string]wkOX24t8
	F9  [1]*wkOX24t9
	F10 *[]map[int]wkOX24t10
	F11 []wkOX24t11
	F12 *wkOX24t12
	F13 map[string]wkOX24t13
	F14 [1]*wkOX24t14
	F15 *[]map[int]wkOX24t15
	F16 []wkOX24t16
	F17 *wkOX24t17
	F18 map[string]wkOX24t18
	F19 [1]*wkOX24t19
	F20 *[]map[int]wkOX24t20
	F21 []wkOX24t21
	F22 *wkOX24t22
	F23 map[string]wkOX24t23
}
type wkOX24t5 struct {
	F6  *wkOX24t6
	F7  map[string]wkOX24t7
	F8  [1]*wkOX24t8
	F9  *[]map[int]wkOX24t9
	F10 []wkOX24t10
	F11 *wkOX24t11
	F12 map[string]wkOX24t12
	F13 [1]*wkOX24t13
	F14 *[]map[int]wkOX24t14
	F15 []wkOX24t15
	F16 *wkOX24t16
	F17 map[string]wkOX24t17
	F18 [1]*wkOX24t18
	F19 *[]map[int]wkOX24t19
	F20 []wkOX24t20
	F21 *wkOX24t21
	F22 map[string]wkOX24t22
	F23 [1]*wkOX24t23
}
type wkOX24t6 struct {
	F7  [1]*wkOX24t7
	F8  *[]map[int]wkOX24t8
	F9  []wkOX24t9
	F10 *wkOX24t10
	F11 map[string]wkOX24t11
	F12 [1]*wkOX24t12
	F13 *[]map[int]wkOX24t13
	F14 []wkOX24t14
	F15 *wkOX24t15
	F16 map[string]wkOX24t16
	F17 [1]*wkOX24t17
	F18 *[]map[int]wkOX24t18
	F19 []wkOX24t19
	F20 *wkOX24t20
	F21 map[string]wkOX24t21
	F22 [1]*wkOX24t22
	F23 *[]map[int]wkOX24t23
}
type wkOX24t7 struct {
	F8  []wkOX24t8
	F9  *wkOX24t9
	F10 map[string]wkOX24t10
	F11 [1]*wkOX24t11
	F12 *[]map[int]wkOX24t12
	F13 []wkOX24t13
	F14 *wkOX24t14
	F15 map[string]wkOX24t15
	F16 [1]*wkOX24t16
	F17 *[]map[int]wkOX24t17
	F18 []wkOX24t18
	F19 *wkOX24t19
	F20 map[string]wkOX24t20
	F21 [1]*wkOX24t21
	F22 *[]map[int]wkOX24t22
	F23 []wkOX24t23
}
type wkOX24t8 struct {
	F9  map[string]wkOX24t9
	F10 [1]*wkOX24t10
	F11 *[]map[int]wkOX24t11
	F12 []wkOX24t12
	F13 *wkOX24t13
	F14 map[string]wkOX24t14
	F15 [1]*wkOX24t15
	F16 *[]map[int]wkOX24t16
	F17 []wkOX24t17
	F18 *wkOX24t18
	F19 map[string]wkOX24t19
	F20 [1]*wkOX24t20
	F21 *[]map[int]wkOX24t21
	F22 []wkOX24t22
	F23 *wkOX24t23
}
type wkOX24t9 struct {
	F10 *[]map[int]wkOX24t10
	F11 []wkOX24t11
	F12 *wkOX24t12
	F13 map[string]wkOX24t13
	F14 [1]*wkOX24t14
	F15 *[]map[int]wkOX24t15
	F16 []wkOX24t16
	F17 *wkOX24t17
	F18 map[string]wkOX24t18
	F19 [1]*wkOX24t19
	F20 *[]map[int]wkOX24t20
	F21 []wkOX24t21
	F22 *wkOX24t22
	F23 map[string]wkOX24t23
}
type wkOX24t10 struct {
	F11 *wkOX24t11
	F12 map[string]wkOX24t12
	F13 [1]*wkOX24t13
	F14 *[]map[int]wkOX24t14
	F15 []wkOX24t15
	F16 *wkOX24t16
	F17 map[string]wkOX24t17
	F18 [1]*wkOX24t18
	F19 *[]map[int]wkOX24t19
	F20 []wkOX24t20
	F21 *wkOX24t21
	F22 map[string]wkOX24t22
	F23 [1]*wkOX24t23
}
type wkOX24t11 struct {
	F12 [1]*wkOX24t12
	F13 *[]map[int]wkOX24t13
	F14 []wkOX24t14
	F15 *wkOX24t15
	F16 map[string]wkOX24t16
	F17 [1]*wkOX24t17
	F18 *[]map[int]wkOX24t18
	F19 []wkOX24t19
	F20 *wkOX24t20
	F21 map[string]wkOX24t21
	F22 [1]*wkOX24t22
	F23 *[]map[int]wkOX24t23
}
type wkOX24t12 struct {
	F13 []wkOX24t13
	F14 *wkOX24t14
	F15 map[string]wkOX24t15
	F16 [1]*wkOX24t16
	F17 *[]map[int]wkOX24t17
	F18 []wkOX24t18
	F19 *wkOX24t19
	F20 map[string]wkOX24t20
	F21 [1]*wkOX24t21
	F22 *[]map[int]wkOX24t22
	F23 []wkOX24t23
}
type wkOX24t13 struct {
	F14 map[string]wkOX24t14
	F15 [1]*wkOX24t15
	F16 *[]map[int]wkOX24t16
	F17 []wkOX24t17
	F18 *wkOX24t18
	F19 map[string]wkOX24t19
	F20 [1]*wkOX24t20
	F21 *[]map[int]wkOX24t21
	F22 []wkOX24t22
	F23 *wkOX24t23
}
type wkOX24t14 struct {
	F15 *[]map[int]wkOX24t15
	F16 []wkOX24t16
	F17 *wkOX24t17
	F18 map[string]wkOX24t18
	F19 [1]*wkOX24t19
	F20 *[]map[int]wkOX24t20
	F21 []wkOX24t21
	F22 *wkOX24t22
	F23 map[string]wkOX24t23
}
type wkOX24t15 struct {
	F16 *wkOX24t16
	F17 map[string]wkOX24t17
	F18 [1]*wkOX24t18
	F19 *[]map[int]wkOX24t19
	F20 []wkOX24t20
	F21 *wkOX24t21
	F22 map[string]wkOX24t22
	F23 [1]*wkOX24t23
}
type wkOX24t16 struct {
	F17 [1]*wkOX24t17
	F18 *[]map[int]wkOX24t18
	F19 []wkOX24t19
	F20 *wkOX24t20
	F21 map[string]wkOX24t21
	F22 [1]*wkOX24t22
	F23 *[]map[int]wkOX24t23
}
type wkOX24t17 struct {
	F18 []wkOX24t18
	F19 *wkOX24t19
	F20 map[string]wkOX24t20
	F21 [1]*wkOX24t21
	F22 *[]map[int]wkOX24t22
	F23 []wkOX24t23
}
type wkOX24t18 struct {
	F19 map[string]wkOX24t19
	F20 [1]*wkOX24t20
	F21 *[]map[int]wkOX24t21
	F22 []wkOX24t22
	F23 *wkOX24t23
}
type wkOX24t19 struct {
	F20 *[]map[int]wkOX24t20
	F21 []wkOX24t21
	F22 *wkOX24t22
	F23 map[string]wkOX24t23
}
type wkOX24t20 struct {
	F21 *wkOX24t21
	F22 map[string]wkOX24t22
	F23 [1]*wkOX24t23
}
type wkOX24t21 struct {
	F22 [1]*wkOX24t22
	F23 *[]map[int]wkOX24t23
}
type wkOX24t22 struct{ F23 []wkOX24t23 }
type wkOX24t23 struct{ F0 [1]*wkOX24t0 }
type wkOX40t0 struct {
	F1  *wkOX40t1
	F2  map[string]wkOX40t2
	F3  [1]*wkOX40t3
	F4  *[]map[int]wkOX40t4
	F5  []wkOX40t5
	F6  *wkOX40t6
	F7  map[string]wkOX40t7
	F8  [1]*wkOX40t8
	F9  *[]map[int]wkOX40t9
	F10 []wkOX40t10
	F11 *wkOX40t11
	F12 map[string]wkOX40t12
	F13 [1]*wkOX40t13
	F14 *[]map[int]wkOX40t14
	F15 []wkOX40t15
	F16 *wkOX40t16
	F17 map[string]wkOX40t17
	F18 [1]*wkOX40t18
	F19 *[]map[int]wkOX40t19
	F20 []wkOX40t20
	F21 *wkOX40t21
	F22 map[string]wkOX40t22
	F23 [1]*wkOX40t23
	F24 *[]map[int]wkOX40t24
	F25 []wkOX40t25
	F26 *wkOX40t26
	F27 map[string]wkOX40t27
	F28 [1]*wkOX40t28
	F29 *[]map[int]wkOX40t29
	F30 []wkOX40t30
	F31 *wkOX40t31
	F32 map[string]wkOX40t32
	F33 [1]*wkOX40t33
	F34 *[]map[int]wkOX40t34
	F35 []wkOX40t35
	F36 *wkOX40t36
	F37 map[string]wkOX40t37
	F38 [1]*wkOX40t38
	F39 *[]map[int]wkOX40t39
}
type wkOX40t1 struct {
	F2  [1]*wkOX40t2
	F3  *[]map[int]wkOX40t3
	F4  []wkOX40t4
	F5  *wkOX40t5
	F6  map[string]wkOX40t6
	F7  [1]*wkOX40t7
	F8  *[]map[int]wkOX40t8
	F9  []wkOX40t9
	F10 *wkOX40t10
	F11 map[string]wkOX40t11
	F12 [1]*wkOX40t12
	F13 *[]map[int]wkOX40t13
	F14 []wkOX40t14
	F15 *wkOX40t15
	F16 map[string]wkOX40t16
	F17 [1]*wkOX40t17
	F18 *[]map[int]wkOX40t18
	F19 []wkOX40t19
	F20 *wkOX40t20
	F21 map[string]wkOX40t21
	F22 [1]*wkOX40t22
	F23 *[]map[int]wkOX40t23
	F24 []wkOX40t24
	F25 *wkOX40t25
	F26 map[string]wkOX40t26
	F27 [1]*wkOX40t27
	F28 *[]map[int]wkOX40t28
	F29 []wkOX40t29
	F30 *wkOX40t30
	F31 map[string]wkOX40t31
	F32 [1]*wkOX40t32
	F33 *[]map[int]wkOX40t33
	F34 []wkOX40t34
	F35 *wkOX40t35
	F36 map[string]wkOX40t36
	F37 [1]*wkOX40t37
	F38 *[]map[int]wkOX40t38
	F39 []wkOX40t39
}
type wkOX40t2 struct {
	F3  []wkOX40t3
	F4  *wkOX40t4
	F5  map[string]wkOX40t5
	F6  [1]*wkOX40t6
	F7  *[]map[int]wkOX40t7
	F8  []wkOX40t8
	F9  *wkOX40t9
	F10 map[string]wkOX40t10
	F11 [1]*wkOX40t11
	F12 *[]map[int]wkOX40t12
	F13 []wkOX40t13
	F14 *wkOX40t14
	F15 map[string]wkOX40t15
	F16 [1]*wkOX40t16
	F17 *[]map[int]wkOX40t17
	F18 []wkOX40t18
	F19 *wkOX40t19
	F20 map[string]wkOX40t20
	F21 [1]*wkOX40t21
	F22 *[]map[int]wkOX40t22
	F23 []wkOX40t23
	F24 *wkOX40t24
	F25 map[string]wkOX40t25
	F26 [1]*wkOX40t26
	F27 *[]map[int]wkOX40t27
	F28 []wkOX40t28
	F29 *wkOX40t29
	F30 map[string]wkOX40t30
	F31 [1]*wkOX40t31
	F32 *[]map[int]wkOX40t32
	F33 []wkOX40t33
	F34 *wkOX40t34
	F35 map[string]wkOX40t35
	F36 [1]*wkOX40t36
	F37 *[]map[int]wkOX40t37
	F38 []wkOX40t38
	F39 *wkOX40t39
}
type wkOX40t3 struct {
	F4  map[string]wkOX40t4
	F5  [1]*wkOX40t5
	F6  *[]map[int]wkOX40t6
	F7  []wkOX40t7
	F8  *wkOX40t8
	F9  map[string]wkOX40t9
	F10 [1]*wkOX40t10
	F11 *[]map[int]wkOX40t11
	F12 []wkOX40t12
	F13 *wkOX40t13
	F14 map[string]wkOX40t14
	F15 [1]*wkOX40t15
	F16 *[]map[int]wkOX40t16
	F17 []wkOX40t17
	F18 *wkOX40t18
	F19 map[string]wkOX40t19
	F20 [1]*wkOX40t20
	F21 *[]map[int]wkOX40t21
	F22 []wkOX40t22
	F23 *wkOX40t23
	F24 map[string]wkOX40t24
	F25 [1]*wkOX40t25
	F26 *[]map[int]wkOX40t26
	F27 []wkOX40t27
	F28 *wkOX40t28
	F29 map[string]wkOX40t29
	F30 [1]*wkOX40t30
	F31 *[]map[int]wkOX40t31
	F32 []wkOX40t32
	F33 *wkOX40t33
	F34 map[string]wkOX40t34
	F35 [1]*wkOX40t35
	F36 *[]map[int]wkOX40t36
	F37 []wkOX40t37
	F38 *wkOX40t38
	F39 map[string]wkOX40t39
}
type wkOX40t4 struct {
	F5  *[]map[int]wkOX40t5
	F6  []wkOX40t6
	F7  *wkOX40t7
	F8  map[string]wkOX40t8
	F9  [1]*wkOX40t9
	F10 *[]map[int]wkOX40t10
	F11 []wkOX40t11
	F12 *wkOX40t12
	F13 map[string]wkOX40t13
	F14 [1]*wkOX40t14
	F15 *[]map[int]wkOX40t15
	F16 []wkOX40t16
	F17 *wkOX40t17
	F18 map[string]wkOX40t18
	F19 [1]*wkOX40t19
	F20 *[]map[int]wkOX40t20
	F21 []wkOX40t21
	F22 *wkOX40t22
	F23 map[string]wkOX40t23
	F24 [1]*wkOX40t24
	F25 *[]map[int]wkOX40t25
	F26 []wkOX40t26
	F27 *wkOX40t27
	F28 map[string]wkOX40t28
	F29 [1]*wkOX40t29
	F30 *[]map[int]wkOX40t30
	F31 []wkOX40t31
	F32 *wkOX40t32
	F33 map[string]wkOX40t33
	F34 [1]*wkOX40t34
	F35 *[]map[int]wkOX40t35
	F36 []wkOX40t36
	F37 *wkOX40t37
	F38 map[string]wkOX40t38
	F39 [1]*wkOX40t39
}
type wkOX40t5 struct {
	F6  *wkOX40t6
	F7  map[string]wkOX40t7
	F8  [1]*wkOX40t8
	F9  *[]map[int]wkOX40t9
	F10 []wkOX40t10
	F11 *wkOX40t11
	F12 map[string]wkOX40t12
	F13 [1]*wkOX40t13
	F14 *[]map[int]wkOX40t14
	F15 []wkOX40t15
	F16 *wkOX40t16
	F17 map[string]wkOX40t17
	F18 [1]*wkOX40t18
	F19 *[]map[int]wkOX40t19
	F20 []wkOX40t20
	F21 *wkOX40t21
	F22 map[string]wkOX40t22
	F23 [1]*wkOX40t23
	F24 *[]map[int]wkOX40t24
	F25 []wkOX40t25
	F26 *wkOX40t26
	F27 map[string]wkOX40t27
	F28 [1]*wkOX40t28
	F29 *[]map[int]wkOX40t29
	F30 []wkOX40t30
	F31 *wkOX40t31
	F32 map[string]wkOX40t32
	F33 [1]*wkOX40t33
	F34 *[]map[int]wkOX40t34
	F35 []wkOX40t35
	F36 *wkOX40t36
	F37 map[string]wkOX40t37
	F38 [1]*wkOX40t38
	F39 *[]map[int]wkOX40t39
}
type wkOX40t6 struct {
	F7  [1]*wkOX40t7
	F8  *[]map[int]wkOX40t8
	F9  []wkOX40t9
	F10 *wkOX40t10
	F11 map[string]wkOX40t11
	F12 [1]*wkOX40t12
	F13 *[]map[int]wkOX40t13
	F14 []wkOX40t14
	F15 *wkOX40t15
	F16 map[string]wkOX40t16
	F17 [1]*wkOX40t17
	F18 *[]map[int]wkOX40t18
	F19 []wkOX40t19
	F20 *wkOX40t20
	F21 map[string]wkOX40t21
	F22 [1]*wkOX40t22
	F23 *[]map[int]wkOX40t23
	F24 []wkOX40t24
	F25 *wkOX40t25
	F26 map[string]wkOX40t26
	F27 [1]*wkOX40t27
	F28 *[]map[int]wkOX40t28
	F29 []wkOX40t29
	F30 *wkOX40t30
	F31 map[string]wkOX40t31
	F32 [1]*wkOX40t32
	F33 *[]map[int]wkOX40t33
	F34 []wkOX40t34
	F35 *wkOX40t35
	F36 map[string]wkOX40t36
	F37 [1]*wkOX40t37
	F38 *[]map[int]wkOX40t38
	F39 []wkOX40t39
}
type wkOX40t7 struct {
	F8  []wkOX40t8
	F9  *wkOX40t9
	F10 map[string]wkOX40t10
	F11 [1]*wkOX40t11
	F12 *[]map[int]wkOX40t12
	F13 []wkOX40t13
	F14 *wkOX40t14
	F15 map[string]wkOX40t15
	F16 [1]*wkOX40t16
	F17 *[]map[int]wkOX40t17
	F18 []wkOX40t18
	F19 *wkOX40t19
	F20 map[string]wkOX40t20
	F21 [1]*wkOX40t21
	F22 *[]map[int]wkOX40t22
	F23 []wkOX40t23
	F24 *wkOX40t24
	F25 map[string]wkOX40t25
	F26 [1]*wkOX40t26
	F27 *[]map[int]wkOX40t27
	F28 []wkOX40t28
	F29 *wkOX40t29
	F30 map[string]wkOX40t30
	F31 [1]*wkOX40t31
	F32 *[]map[int]wkOX40t32
	F33 []wkOX40t33
	F34 *wkOX40t34
	F35 map[string]wkOX40t35
	F36 [1]*wkOX40t36
	F37 *[]map[int]wkOX40t37
	F38 []wkOX40t38
	F39 *wkOX40t39
}
type wkOX40t8 struct {
	F9  map[string]wkOX40t9
	F10 [1]*wkOX40t10
	F11 *[]map[int]wkOX40t11
	F12 []wkOX40t12
	F13 *wkOX40t13
	F14 map[string]wkOX40t14
	F15 [1]*wkOX40t15
	F16 *[]map[int]wkOX40t16
	F17 []wkOX40t17
	F18 *wkOX40t18
	F19 map[string]wkOX40t19
	F20 [1]*wkOX40t20
	F21 *[]map[int]wkOX40t21
	F22 []wkOX40t22
	F23 *wkOX40t23
	F24 map[string]wkOX40t24
	F25 [1]*wkOX40t25
	F26 *[]map[int]wkOX40t26
	F27 []wkOX40t27
	F28 *wkOX40t28
	F29 map[string]wkOX40t29
	F30 [1]*wkOX40t30
	F31 *[]map[int]wkOX40t31
	F32 []wkOX40t32
	F33 *wkOX40t33
	F34 map[string]wkOX40t34
	F35 [1]*wkOX40t35
	F36 *[]map[int]wkOX40t36
	F37 []wkOX40t37
	F38 *wkOX40t38
	F39 map[string]wkOX40t39
}
type wkOX40t9 struct {
	F10 *[]map[int]wkOX40t10
	F11 []wkOX40t11
	F12 *wkOX40t12
	F13 map[string]wkOX40t13
	F14 [1]*wkOX40t14
	F15 *[]map[int]wkOX40t15
	F16 []wkOX40t16
	F17 *wkOX40t17
	F18 map[string]wkOX40t18
	F19 [1]*wkOX40t19
	F20 *[]map[int]wkOX40t20
	F21 []wkOX40t21
	F22 *wkOX40t22
	F23 map[string]wkOX40t23
	F24 [1]*wkOX40t24
	F25 *[]map[int]wkOX40t25
	F26 []wkOX40t26
	F27 *wkOX40t27
	F28 map[string]wkOX40t28
	F29 [1]*wkOX40t29
	F30 *[]map[int]wkOX40t30
	F31 []wkOX40t31
	F32 *wkOX40t32
	F33 map[string]wkOX40t33
	F34 [1]*wkOX40t34
	F35 *[]map[int]wkOX40t35
	F36 []wkOX40t36
	F37 *wkOX40t37
	F38 map[string]wkOX40t38
	F39 [1]*wkOX40t39
}
type wkOX40t10 struct {
	F11 *wkOX40t11
	F12 map[string]wkOX40t12
	F13 [1]*wkOX40t13
	F14 *[]map[int]wkOX40t14
	F15 []wkOX40t15
	F16 *wkOX40t16
	F17 map[string]wkOX40t17
	F18 [1]*wkOX40t18
	F19 *[]map[int]wkOX40t19
	F20 []wkOX40t20
	F21 *wkOX40t21
	F22 map[string]wkOX40t22
	F23 [1]*wkOX40t23
	F24 *[]map[int]wkOX40t24
	F25 []wkOX40t25
	F26 *wkOX40t26
	F27 map[string]wkOX40t27
	F28 [1]*wkOX40t28
	F29 *[]map[int]wkOX40t29
	F30 []wkOX40t30
	F31 *wkOX40t31
	F32 map[string]wkOX40t32
	F33 [1]*wkOX40t33
	F34 *[]map[int]wkOX40t34
	F35 []wkOX40t35
	F36 *wkOX40t36
	F37 map[string]wkOX40t37
	F38 [1]*wkOX40t38
	F39 *[]map[int]wkOX40t39
}
type wkOX40t11 struct {
	F12 [1]*wkOX40t12
	F13 *[]map[int]wkOX40t13
	F14 []wkOX40t14
	F15 *wkOX40t15
	F16 map[string]wkOX40t16
	F17 [1]*wkOX40t17
	F18 *[]map[int]wkOX40t18
	F19 []wkOX40t19
	F20 *wkOX40t20
	F21 map[string]wkOX40t21
	F22 [1]*wkOX40t22
	F23 *[]map[int]wkOX40t23
	F24 []wkOX40t24
	F25 *wkOX40t25
	F26 map[string]wkOX40t26
	F27 [1]*wkOX40t27
	F28 *[]map[int]wkOX40t28
	F29 []wkOX40t29
	F30 *wkOX40t30
	F31 map[string]wkOX40t31
	F32 [1]*wkOX40t32
	F33 *[]map[int]wkOX40t33
	F34 []wkOX40t34
	F35 *wkOX40t35
	F36 map[string]wkOX40t36
	F37 [1]*wkOX40t37
	F38 *[]map[int]wkOX40t38
	F39 []wkOX40t39
}
type wkOX40t12 struct {
	F13 []wkOX40t13
	F14 *wkOX40t14
	F15 map[string]wkOX40t15
	F16 [1]*wkOX40t16
	F17 *[]map[int]wkOX40t17
	F18 []wkOX40t18
	F19 *wkOX40t19
	F20 map[string]wkOX40t20
	F21 [1]*wkOX40t21
	F22 *[]map[int]wkOX40t22
	F23 []wkOX40t23
	F24 *wkOX40t24
	F25 map[string]wkOX40t25
	F26 [1]*wkOX40t26
	F27 *[]map[int]wkOX40t27
	F28 []wkOX40t28
	F29 *wkOX40t29
	F30 map[string]wkOX40t30
	F31 [1]*wkOX40t31
	F32 *[]map[int]wkOX40t32
	F33 []wkOX40t33
	F34 *wkOX40t34
	F35 map[string]wkOX40t35
	F36 [1]*wkOX40t36
	F37 *[]map[int]wkOX40t37
	F38 []wkOX40t38
	F39 *wkOX40t39
}
type wkOX40t13 struct {
	F14 map[string]wkOX40t14
	F15 [1]*wkOX40t15
	F16 *[]map[int]wkOX40t16
	F17 []wkOX40t17
	F18 *wkOX40t18
	F19 map[string]wkOX40t19
	F20 [1]*wkOX40t20
	F21 *[]map[int]wkOX40t21
	F22 []wkOX40t22
	F23 *wkOX40t23
	F24 map[string]wkOX40t24
	F25 [1]*wkOX40t25
	F26 *[]map[int]wkOX40t26
	F27 []wkOX40t27
	F28 *wkOX40t28
	F29 map[string]wkOX40t29
	F30 [1]*wkOX40t30
	F31 *[]map[int]wkOX40t31
	F32 []wkOX40t32
	F33 *wkOX40t33
	F34 map[string]wkOX40t34
	F35 [1]*wkOX40t35
	F36 *[]map[int]wkOX40t36
	F37 []wkOX40t37
	F38 *wkOX40t38
	F39 map[string]wkOX40t39
}
type wkOX40t14 struct {
	F15 *[]map[int]wkOX40t15
	F16 []wkOX40t16
	F17 *wkOX40t17
	F18 map[string]wkOX40t18
	F19 [1]*wkOX40t19
	F20 *[]map[int]wkOX40t20
	F21 []wkOX40t21
	F22 *wkOX40t22
	F23 map[string]wkOX40t23
	F24 [1]*wkOX40t24
	F25 *[]map[int]wkOX40t25
	F26 []wkOX40t26
	F27 *wkOX40t27
	F28 map[string]wkOX40t28
	F29 [1]*wkOX40t29
	F30 *[]map[int]wkOX40t30
	F31 []wkOX40t31
	F32 *wkOX40t32
	F33 map[string]wkOX40t33
	F34 [1]*wkOX40t34
	F35 *[]map[int]wkOX40t35
	F36 []wkOX40t36
	F37 *wkOX40t37
	F38 map[string]wkOX40t38
	F39 [1]*wkOX40t39
}
type wkOX40t15 struct {
	F16 *wkOX40t16
	F17 map[string]wkOX40t17
	F18 [1]*wkOX40t18
	F19 *[]map[int]wkOX40t19
	F20 []wkOX40t20
	F21 *wkOX40t21
	F22 map[string]wkOX40t22
	F23 [1]*wkOX40t23
	F24 *[]map[int]wkOX40t24
	F25 []wkOX40t25
	F26 *wkOX40t26
	F27 map[string]wkOX40t27
	F28 [1]*wkOX40t28
	F29 *[]map[int]wkOX40t29
	F30 []wkOX40t30
	F31 *wkOX40t31
	F32 map[string]wkOX40t32
	F33 [1]*wkOX40t33
	F34 *[]map[int]wkOX40t34
	F35 []wkOX40t35
	F36 *wkOX40t36
	F37 map[string]wkOX40t37
	F38 [1]*wkOX40t38
	F39 *[]map[int]wkOX40t39
}
type wkOX40t16 struct {
	F17 [1]*wkOX40t17
	F18 *[]map[int]wkOX40t18
	F19 []wkOX40t19
	F20 *wkOX40t20
	F21 map[string]wkOX40t21
	F22 [1]*wkOX40t22
	F23 *[]map[int]wkOX40t23
	F24 []wkOX40t24
	F25 *wkOX40t25
	F26 map[string]wkOX40t26
	F27 [1]*wkOX40t27
	F28 *[]map[int]wkOX40t28
	F29 []wkOX40t29
	F30 *wkOX40t30
	F31 map[string]wkOX40t31
	F32 [1]*wkOX40t32
	F33 *[]map[int]wkOX40t33
	F34 []wkOX40t34
	F35 *wkOX40t35
	F36 map[string]wkOX40t36
	F37 [1]*wkOX40t37
	F38 *[]map[int]wkOX40t38
	F39 []wkOX40t39
}
type wkOX40t17 struct {
	F18 []wkOX40t18
	F19 *wkOX40t19
	F20 map[string]wkOX40t20
	F21 [1]*wkOX40t21
	F22 *[]map[int]wkOX40t22
	F23 []wkOX40t23
	F24 *wkOX40t24
	F25 map[string]wkOX40t25
	F26 [1]*wkOX40t26
	F27 *[]map[int]wkOX40t27
	F28 []wkOX40t28
	F29 *wkOX40t29
	F30 map[string]wkOX40t30
	F31 [1]*wkOX40t31
	F32 *[]map[int]wkOX40t32
	F33 []wkOX40t33
	F34 *wkOX40t34
	F35 map[string]wkOX40t35
	F36 [1]*wkOX40t36
	F37 *[]map[int]wkOX40t37
	F38 []wkOX40t38
	F39 *wkOX40t39
}
type wkOX40t18 struct {
	F19 map[string]wkOX40t19
	F20 [1]*wkOX40t20
	F21 *[]map[int]wkOX40t21
	F22 []wkOX40t22
	F23 *wkOX40t23
	F24 map[string]wkOX40t24
	F25 [1]*wkOX40t25
	F26 *[]map[int]wkOX40t26
	F27 []wkOX40t27
	F28 *wkOX40t28
	F29 map[string]wkOX40t29
	F30 [1]*wkOX40t30
	F31 *[]map[int]wkOX40t31
	F32 []wkOX40t32
	F33 *wkOX40t33
	F34 map[string]wkOX40t34
	F35 [1]*wkOX40t35
	F36 *[]map[int]wkOX40t36
	F37 []wkOX40t37
	F38 *wkOX40t38
	F39 map[string]wkOX40t39
}
type wkOX40t19 struct {
	F20 *[]map[int]wkOX40t20
	F21 []wkOX40t21
	F22 *wkOX40t22
	F23 map[string]wkOX40t23
	F24 [1]*wkOX40t24
	F25 *[]map[int]wkOX40t25
	F26 []wkOX40t26
	F27 *wkOX40t27
	F28 map[string]wkOX40t28
	F29 [1]*wkOX40t29
	F30 *[]map[int]wkOX40t30
	F31 []wkOX40t31
	F32 *wkOX40t32
	F33 map[string]wkOX40t33
	F34 [1]*wkOX40t34
	F35 *[]map[int]wkOX40t35
	F36 []wkOX40t36
	F37 *wkOX40t37
	F38 map[string]wkOX40t38
	F39 [1]*wkOX40t39
}
type wkOX40t20 struct {
	F21 *wkOX40t21
	F22 map[string]wkOX40t22
	F23 [1]*wkOX40t23
	F24 *[]map[int]wkOX40t24
	F25 []wkOX40t25
	F26 *wkOX40t26
	F27 map[string]wkOX40t27
	F28 [1]*wkOX40t28
	F29 *[]map[int]wkOX40t29
	F30 []wkOX40t30
	F31 *wkOX40t31
	F32 map[string]wkOX40t32
	F33 [1]*wkOX40t33
	F34 *[]map[int]wkOX40t34
	F35 []wkOX40t35
	F36 *wkOX40t36
	F37 map[string]wkOX40t37
	F38 [1]*wkOX40t38
	F39 *[]map[int]wkOX40t39
}
type wkOX40t21 struct {
	F22 [1]*wkOX40t22
	F23 *[]map[int]wkOX40t23
	F24 []wkOX40t24
	F25 *wkOX40t25
	F26 map[string]wkOX40t26
	F27 [1]*wkOX40t27
	F28 *[]map[int]wkOX40t28
	F29 []wkOX40t29
	F30 *wkOX40t30
	F31 map[string]wkOX40t31
	F32 [1]*wkOX40t32
	F33 *[]map[int]wkOX40t33
	F34 []wkOX40t34
	F35 *wkOX40t35
	F36 map[string]wkOX40t36
	F37 [1]*wkOX40t37
	F38 *[]map[int]wkOX40t38
	F39 []wkOX40t39
}
type wkOX40t22 struct {
	F23 []wkOX40t23
	F24 *wkOX40t24
	F25 map[string]wkOX40t25
	F26 [1]*wkOX40t26
	F27 *[]map[int]wkOX40t27
	F28 []wkOX40t28
	F29 *wkOX40t29
	F30 map[string]wkOX40t30
	F31 [1]*wkOX40t31
	F32 *[]map[int]wkOX40t32
	F33 []wkOX40t33
	F34 *wkOX40t34
	F35 map[string]wkOX40t35
	F36 [1]*wkOX40t36
	F37 *[]map[int]wkOX40t37
	F38 []wkOX40t38
	F39 *wkOX40t39
}
type wkOX40t23 struct {
	F24 map[string]wkOX40t24
	F25 [1]*wkOX40t25
	F26 *[]map[int]wkOX40t26
	F27 []wkOX40t27
	F28 *wkOX40t28
	F29 map[string]wkOX40t29
	F30 [1]*wkOX40t30
	F31 *[]map[int]wkOX40t31
	F32 []wkOX40t32
	F33 *wkOX40t33
	F34 map[string]wkOX40t34
	F35 [1]*wkOX40t35
	F36 *[]map[int]wkOX40t36
	F37 []wkOX40t37
	F38 *wkOX40t38
	F39 map[string]wkOX40t39
}
type wkOX40t24 struct {
	F25 *[]map[int]wkOX40t25
	F26 []wkOX40t26
	F27 *wkOX40t27
	F28 map[string]wkOX40t28
	F29 [1]*wkOX40t29
	F30 *[]map[int]wkOX40t30
	F31 []wkOX40t31
	F32 *wkOX40t32
	F33 map[string]wkOX40t33
	F34 [1]*wkOX40t34
	F35 *[]map[int]wkOX40t35
	F36 []wkOX40t36
	F37 *wkOX40t37
	F38 map[string]wkOX40t38
	F39 [1]*wkOX40t39
}
type wkOX40t25 struct {
	F26 *wkOX40t26
	F27 map[string]wkOX40t27
	F28 [1]*wkOX40t28
	F29 *[]map[int]wkOX40t29
	F30 []wkOX40t30
	F31 *wkOX40t31
	F32 map[string]wkOX40t32
	F33 [1]*wkOX40t33
	F34 *[]map[int]wkOX40t34
	F35 []wkOX40t35
	F36 *wkOX40t36
	F37 map[string]wkOX40t37
	F38 [1]*wkOX40t38
	F39 *[]map[int]wkOX40t39
}
type wkOX40t26 struct {
	F27 [1]*wkOX40t27
	F28 *[]map[int]wkOX40t28
	F29 []wkOX40t29
	F30 *wkOX40t30
	F31 map[string]wkOX40t31
	F32 [1]*wkOX40t32
	F33 *[]map[int]wkOX40t33
	F34 []wkOX40t34
	F35 *wkOX40t35
	F36 map[string]wkOX40t36
	F37 [1]*wkOX40t37
	F38 *[]map[int]wkOX40t38
	F39 []wkOX40t39
}
type wkOX40t27 struct {
	F28 []wkOX40t28
	F29 *wkOX40t29
	F30 map[string]wkOX40t30
	F31 [1]*wkOX40t31
	F32 *[]map[int]wkOX40t32
	F33 []wkOX40t33
	F34 *wkOX40t34
	F35 map[string]wkOX40t35
	F36 [1]*wkOX40t36
	F37 *[]map[int]wkOX40t37
	F38 []wkOX40t38
	F39 *wkOX40t39
}
type wkOX40t28 struct {
	F29 map[string]wkOX40t29
	F30 [1]*wkOX40t30
	F31 *[]map[int]wkOX40t31
	F32 []wkOX40t32
	F33 *wkOX40t33
	F34 map[string]wkOX40t34
	F35 [1]*wkOX40t35
	F36 *[]map[int]wkOX40t36
	F37 []wkOX40t37
	F38 *wkOX40t38
	F39 map[string]wkOX40t39
}
type wkOX40t29 struct {
	F30 *[]map[int]wkOX40t30
	F31 []wkOX40t31
	F32 *wkOX40t32
	F33 map[string]wkOX40t33
	F34 [1]*wkOX40t34
	F35 *[]map[int]wkOX40t35
	F36 []wkOX40t36
	F37 *wkOX40t37
	F38 map[string]wkOX40t38
	F39 [1]*wkOX40t39
}
type wkOX40t30 struct {
	F31 *wkOX40t31
	F32 map[string]wkOX40t32
	F33 [1]*wkOX40t33
	F34 *[]map[int]wkOX40t34
	F35 []wkOX40t35
	F36 *wkOX40t36
	F37 map[string]wkOX40t37
	F38 [1]*wkOX40t38
	F39 *[]map[int]wkOX40t39
}
type wkOX40t31 struct {
	F32 [1]*wkOX40t32
	F33 *[]map[int]wkOX40t33
	F34 []wkOX40t34
	F35 *wkOX40t35
	F36 map[string]wkOX40t36
	F37 [1]*wkOX40t37
	F38 *[]map[int]wkOX40t38
	F39 []wkOX40t39
}
type wkOX40t32 struct {
	F33 []wkOX40t33
	F34 *wkOX40t34
	F35 map[string]wkOX40t35
	F36 [1]*wkOX40t36
	F37 *[]map[int]wkOX40t37
	F38 []wkOX40t38
	F39 *wkOX40t39
}
type wkOX40t33 struct {
	F34 map[string]wkOX40t34
	F35 [1]*wkOX40t35
	F36 *[]map[int]wkOX40t36
	F37 []wkOX40t37
	F38 *wkOX40t38
	F39 map[string]wkOX40t39
}
type wkOX40t34 struct {
	F35 *[]map[int]wkOX40t35
	F36 []wkOX40t36
	F37 *wkOX40t37
	F38 map[string]wkOX40t38
	F39 [1]*wkOX40t39
}
type wkOX40t35 struct {
	F36 *wkOX40t36
	F37 map[string]wkOX40t37
	F38 [1]*wkOX40t38
	F39 *[]map[int]wkOX40t39
}
type wkOX40t36 struct {
	F37 [1]*wkOX40t37
	F38 *[]map[int]wkOX40t38
	F39 []wkOX40t39
}
type wkOX40t37 struct {
	F38 []wkOX40t38
	F39 *wkOX40t39
}
type wkOX40t38 struct{ F39 map[string]wkOX40t39 }
type wkOX40t39 struct{ F0 *[]map[int]wkOX40t0 }
type wkN4s0 struct {
	F0 wkN4l0
	F1 wkN4l1
	F2 wkN4l2
	F3 wkN4l3
}
type wkN4l0 []wkN4m0
type wkN4m0 map[string]wkN4s0
type wkN4s1 struct {
	F0 wkN4l0
	F1 wkN4l1
	F2 wkN4l2
	F3 wkN4l3
}
type wkN4l1 []wkN4m1
type wkN4m1 map[string]wkN4s1
type wkN4s2 struct {
	F0 wkN4l0
	F1 wkN4l1
	F2 wkN4l2
	F3 wkN4l3
}
type wkN4l2 []wkN4m2
type wkN4m2 map[string]wkN4s2
type wkN4s3 struct {
	F0 wkN4l0
	F1 wkN4l1
	F2 wkN4l2
	F3 wkN4l3
}
type wkN4l3 []wkN4m3
type wkN4m3 map[string]wkN4s3
type wkN8s0 struct {
	F0 wkN8l0
	F1 wkN8l1
	F2 wkN8l2
	F3 wkN8l3
	F4 wkN8l4
	F5 wkN8l5
	F6 wkN8l6
	F7 wkN8l7
}
type wkN8l0 []wkN8m0
type wkN8m0 map[string]wkN8s0
type wkN8s1 struct {
	F0 wkN8l0
	F1 wkN8l1
	F2 wkN8l2
	F3 wkN8l3
	F4 wkN8l4
	F5 wkN8l5
	F6 wkN8l6
	F7 wkN8l7
}
type wkN8l1 []wkN8m1
type wkN8m1 map[string]wkN8s1
type wkN8s2 struct {
	F0 wkN8l0
	F1 wkN8l1
	F2 wkN8l2
	F3 wkN8l3
	F4 wkN8l4
	F5 wkN8l5
	F6 wkN8l6
	F7 wkN8l7
}
type wkN8l2 []wkN8m2
type wkN8m2 map[string]wkN8s2
type wkN8s3 struct {
	F0 wkN8l0
	F1 wkN8l1
	F2 wkN8l2
	F3 wkN8l3
	F4 wkN8l4
	F5 wkN8l5
	F6 wkN8l6
	F7 wkN8l7
}
type wkN8l3 []wkN8m3
type wkN8m3 map[string]wkN8s3
type wkN8s4 struct {
	F0 wkN8l0
	F1 wkN8l1
	F2 wkN8l2
	F3 wkN8l3
	F4 wkN8l4
	F5 wkN8l5
	F6 wkN8l6
	F7 wkN8l7
}
type wkN8l4 []wkN8m4
type wkN8m4 map[string]wkN8s4
type wkN8s5 struct {
	F0 wkN8l0
	F1 wkN8l1
	F2 wkN8l2
	F3 wkN8l3
	F4 wkN8l4
	F5 wkN8l5
	F6 wkN8l6
	F7 wkN8l7
}
type wkN8l5 []wkN8m5
type wkN8m5 map[string]wkN8s5
type wkN8s6 struct {
	F0 wkN8l0
	F1 wkN8l1
	F2 wkN8l2
	F3 wkN8l3
	F4 wkN8l4
	F5 wkN8l5
	F6 wkN8l6
	F7 wkN8l7
}
type wkN8l6 []wkN8m6
type wkN8m6 map[string]wkN8s6
type wkN8s7 struct {
	F0 wkN8l0
	F1 wkN8l1
	F2 wkN8l2
	F3 wkN8l3
	F4 wkN8l4
	F5 wkN8l5
	F6 wkN8l6
	F7 wkN8l7
}
type wkN8l7 []wkN8m7
type wkN8m7 map[string]wkN8s7
type wkN10s0 struct {
	F0 wkN10l0
	F1 wkN10l1
	F2 wkN10l2
	F3 wkN10l3
	F4 wkN10l4
	F5 wkN10l5
	F6 wkN10l6
	F7 wkN10l7
	F8 wkN10l8
	F9 wkN10l9
}
type wkN10l0 []wkN10m0
type wkN10m0 map[string]wkN10s0
type wkN10s1 struct {
	F0 wkN10l0
	F1 wkN10l1
	F2 wkN10l2
	F3 wkN10l3
	F4 wkN10l4
	F5 wkN10l5
	F6 wkN10l6
	F7 wkN10l7
	F8 wkN10l8
	F9 wkN10l9
}
type wkN10l1 []wkN10m1
type wkN10m1 map[string]wkN10s1
type wkN10s2 struct {
	F0 wkN10l0
	F1 wkN10l1
	F2 wkN10l2
	F3 wkN10l3
	F4 wkN10l4
	F5 wkN10l5
	F6 wkN10l6
	F7 wkN10l7
	F8 wkN10l8
	F9 wkN10l9
}
type wkN10l2 []wkN10m2
type wkN10m2 map[string]wkN10s2
type wkN10s3 struct {
	F0 wkN10l0
	F1 wkN10l1
	F2 wkN10l2
	F3 wkN10l3
	F4 wkN10l4
	F5 wkN10l5
	F6 wkN10l6
	F7 wkN10l7
	F8 wkN10l8
	F9 wkN10l9
}
type wkN10l3 []wkN10m3
type wkN10m3 map[string]wkN10s3
type wkN10s4 struct {
	F0 wkN10l0
	F1 wkN10l1
	F2 wkN10l2
	F3 wkN10l3
	F4 wkN10l4
	F5 wkN10l5
	F6 wkN10l6
	F7 wkN10l7
	F8 wkN10l8
	F9 wkN10l9
}
type wkN10l4 []wkN10m4
type wkN10m4 map[string]wkN10s4
type wkN10s5 struct {
	F0 wkN10l0
	F1 wkN10l1
	F2 wkN10l2
	F3 wkN10l3
	F4 wkN10l4
	F5 wkN10l5
	F6 wkN10l6
	F7 wkN10l7
	F8 wkN10l8
	F9 wkN10l9
}
type wkN10l5 []wkN10m5
type wkN10m5 map[string]wkN10s5
type wkN10s6 struct {
	F0 wkN10l0
	F1 wkN10l1
	F2 wkN10l2
	F3 wkN10l3
	F4 wkN10l4
	F5 wkN10l5
	F6 wkN10l6
	F7 wkN10l7
	F8 wkN10l8
	F9 wkN10l9
}
type wkN10l6 []wkN10m6
type wkN10m6 map[string]wkN10s6
type wkN10s7 struct {
	F0 wkN10l0
	F1 wkN10l1
	F2 wkN10l2
	F3 wkN10l3
	F4 wkN10l4
	F5 wkN10l5
	F6 wkN10l6
	F7 wkN10l7
	F8 wkN10l8
	F9 wkN10l9
}
type wkN10l7 []wkN10m7
type wkN10m7 map[string]wkN10s7
type wkN10s8 struct {
	F0 wkN10l0
	F1 wkN10l1
	F2 wkN10l2
	F3 wkN10l3
	F4 wkN10l4
	F5 wkN10l5
	F6 wkN10l6
	F7 wkN10l7
	F8 wkN10l8
	F9 wkN10l9
}
type wkN10l8 []wkN10m8
type wkN10m8 map[string]wkN10s8
type wkN10s9 struct {
	F0 wkN10l0
	F1 wkN10l1
	F2 wkN10l2
	F3 wkN10l3
	F4 wkN10l4
	F5 wkN10l5
	F6 wkN10l6
	F7 wkN10l7
	F8 wkN10l8
	F9 wkN10l9
}
type wkN10l9 []wkN10m9
type wkN10m9 map[string]wkN10s9
type wkN12s0 struct {
	F0  wkN12l0
	F1  wkN12l1
	F2  wkN12l2
	F3  wkN12l3
	F4  wkN12l4
	F5  wkN12l5
	F6  wkN12l6
	F7  wkN12l7
	F8  wkN12l8
	F9  wkN12l9
	F10 wkN12l10
	F11 wkN12l11
}
type wkN12l0 []wkN12m0
type wkN12m0 map[string]wkN12s0
type wkN12s1 struct {
	F0  wkN12l0
	F1  wkN12l1
	F2  wkN12l2
	F3  wkN12l3
	F4  wkN12l4
	F5  wkN12l5
	F6  wkN12l6
	F7  wkN12l7
	F8  wkN12l8
	F9  wkN12l9
	F10 wkN12l10
	F11 wkN12l11
}
type wkN12l1 []wkN12m1
type wkN12m1 map[string]wkN12s1
type wkN12s2 struct {
	F0  wkN12l0
	F1  wkN12l1
	F2  wkN12l2
	F3  wkN12l3
	F4  wkN12l4
	F5  wkN12l5
	F6  wkN12l6
	F7  wkN12l7
	F8  wkN12l8
	F9  wkN12l9
	F10 wkN12l10
	F11 wkN12l11
}
type wkN12l2 []wkN12m2
type wkN12m2 map[string]wkN12s2
type wkN12s3 struct {
	F0  wkN12l0
	F1  wkN12l1
	F2  wkN12l2
	F3  wkN12l3
	F4  wkN12l4
	F5  wkN12l5
	F6  wkN12l6
	F7  wkN12l7
	F8  wkN12l8
	F9  wkN12l9
	F10 wkN12l10
	F11 wkN12l11
}
type wkN12l3 []wkN12m3
type wkN12m3 map[string]wkN12s3
type wkN12s4 struct {
	F0  wkN12l0
	F1  wkN12l1
	F2  wkN12l2
	F3  wkN12l3
	F4  wkN12l4
	F5  wkN12l5
	F6  wkN12l6
	F7  wkN12l7
	F8  wkN12l8
	F9  wkN12l9
	F10 wkN12l10
	F11 wkN12l11
}
type wkN12l4 []wkN12m4
type wkN12m4 map[string]wkN12s4
type wkN12s5 struct {
	F0  wkN12l0
	F1  wkN12l1
	F2  wkN12l2
	F3  wkN12l3
	F4  wkN12l4
	F5  wkN12l5
	F6  wkN12l6
	F7  wkN12l7
	F8  wkN12l8
	F9  wkN12l9
	F10 wkN12l10
	F11 wkN12l11
}
type wkN12l5 []wkN12m5
type wkN12m5 map[string]wkN12s5
type wkN12s6 struct {
	F0  wkN12l0
	F1  wkN12l1
	F2  wkN12l2
	F3  wkN12l3
	F4  wkN12l4
	F5  wkN12l5
	F6  wkN12l6
	F7  wkN12l7
	F8  wkN12l8
	F9  wkN12l9
	F10 wkN12l10
	F11 wkN12l11
}
type wkN12l6 []wkN12m6
type wkN12m6 map[string]wkN12s6
type wkN12s7 struct {
	F0  wkN12l0
	F1  wkN12l1
	F2  wkN12l2
	F3  wkN12l3
	F4  wkN12l4
	F5  wkN12l5
	F6  wkN12l6
	F7  wkN12l7
	F8  wkN12l8
	F9  wkN12l9
	F10 wkN12l10
	F11 wkN12l11
}
type wkN12l7 []wkN12m7
type wkN12m7 map[string]wkN12s7
type wkN12s8 struct {
	F0  wkN12l0
	F1  wkN12l1
	F2  wkN12l2
	F3  wkN12l3
	F4  wkN12l4
	F5  wkN12l5
	F6  wkN12l6
	F7  wkN12l7
	F8  wkN12l8
	F9  wkN12l9
	F10 wkN12l10
	F11 wkN12l11
}
type wkN12l8 []wkN12m8
type wkN12m8 map[string]wkN12s8
type wkN12s9 struct {
	F0  wkN12l0
	F1  wkN12l1
	F2  wkN12l2
	F3  wkN12l3
	F4  wkN12l4
	F5  wkN12l5
	F6  wkN12l6
	F7  wkN12l7
	F8  wkN12l8
	F9  wkN12l9
	F10 wkN12l10
	F11 wkN12l11
}
type wkN12l9 []wkN12m9
type wkN12m9 map[string]wkN12s9
type wkN12s10 struct {
	F0  wkN12l0
	F1  wkN12l1
	F2  wkN12l2
	F3  wkN12l3
	F4  wkN12l4
	F5  wkN12l5
	F6  wkN12l6
	F7  wkN12l7
	F8  wkN12l8
	F9  wkN12l9
	F10 wkN12l10
	F11 wkN12l11
}
type wkN12l10 []wkN12m10
type wkN12m10 map[string]wkN12s10
type wkN12s11 struct {
	F0  wkN12l0
	F1  wkN12l1
	F2  wkN12l2
	F3  wkN12l3
	F4  wkN12l4
	F5  wkN12l5
	F6  wkN12l6
	F7  wkN12l7
	F8  wkN12l8
	F9  wkN12l9
	F10 wkN12l10
	F11 wkN12l11
}
type wkN12l11 []wkN12m11
type wkN12m11 map[string]wkN12s11
type wkN16s0 struct {
	F0  wkN16l0
	F1  wkN16l1
	F2  wkN16l2
	F3  wkN16l3
	F4  wkN16l4
	F5  wkN16l5
	F6  wkN16l6
	F7  wkN16l7
	F8  wkN16l8
	F9  wkN16l9
	F10 wkN16l10
	F11 wkN16l11
	F12 wkN16l12
	F13 wkN16l13
	F14 wkN16l14
	F15 wkN16l15
}
type wkN16l0 []wkN16m0
type wkN16m0 map[string]wkN16s0
type wkN16s1 struct {
	F0  wkN16l0
	F1  wkN16l1
	F2  wkN16l2
	F3  wkN16l3
	F4  wkN16l4
	F5  wkN16l5
	F6  wkN16l6
	F7  wkN16l7
	F8  wkN16l8
	F9  wkN16l9
	F10 wkN16l10
	F11 wkN16l11
	F12 wkN16l12
	F13 wkN16l13
	F14 wkN16l14
	F15 wkN16l15
}
type wkN16l1 []wkN16m1
type wkN16m1 map[string]wkN16s1
type wkN16s2 struct {
	F0  wkN16l0
	F1  wkN16l1
	F2  wkN16l2
	F3  wkN16l3
	F4  wkN16l4
	F5  wkN16l5
	F6  wkN16l6
	F7  wkN16l7
	F8  wkN16l8
	F9  wkN16l9
	F10 wkN16l10
	F11 wkN16l11
	F12 wkN16l12
	F13 wkN16l13
	F14 wkN16l14
	F15 wkN16l15
}
type wkN16l2 []wkN16m2
type wkN16m2 map[string]wkN16s2
type wkN16s3 struct {
	F0  wkN16l0
	F1  wkN16l1
	F2  wkN16l2
	F3  wkN16l3
	F4  wkN16l4
	F5  wkN16l5
	F6  wkN16l6
	F7  wkN16l7
	F8  wkN16l8
	F9  wkN16l9
	F10 wkN16l10
	F11 wkN16l11
	F12 wkN16l12
	F13 wkN16l13
	F14 wkN16l14
	F15 wkN16l15
}
type wkN16l3 []wkN16m3
type wkN16m3 map[string]wkN16s3
type wkN16s4 struct {
	F0  wkN16l0
	F1  wkN16l1
	F2  wkN16l2
	F3  wkN16l3
	F4  wkN16l4
	F5  wkN16l5
	F6  wkN16l6
	F7  wkN16l7
	F8  wkN16l8
	F9  wkN16l9
	F10 wkN16l10
	F11 wkN16l11
	F12 wkN16l12
	F13 wkN16l13
	F14 wkN16l14
	F15 wkN16l15
}
type wkN16l4 []wkN16m4
type wkN16m4 map[string]wkN16s4
type wkN16s5 struct {
	F0  wkN16l0
	F1  wkN16l1
	F2  wkN16l2
	F3  wkN16l3
	F4  wkN16l4
	F5  wkN16l5
	F6  wkN16l6
	F7  wkN16l7
	F8  wkN16l8
	F9  wkN16l9
	F10 wkN16l10
	F11 wkN16l11
	F12 wkN16l12
	F13 wkN16l13
	F14 wkN16l14
	F15 wkN16l15
}
type wkN16l5 []wkN16m5
type wkN16m5 map[string]wkN16s5
type wkN16s6 struct {
	F0  wkN16l0
	F1  wkN16l1
	F2  wkN16l2
	F3  wkN16l3
	F4  wkN16l4
	F5  wkN16l5
	F6  wkN16l6
	F7  wkN16l7
	F8  wkN16l8
	F9  wkN16l9
	F10 wkN16l10
	F11 wkN16l11
	F12 wkN16l12
	F13 wkN16l13
	F14 wkN16l14
	F15 wkN16l15
}
type wkN16l6 []wkN16m6
type wkN16m6 map[string]wkN16s6
type wkN16s7 struct {
	F0  wkN16l0
	F1  wkN16l1
	F2  wkN16l2
	F3  wkN16l3
	F4  wkN16l4
	F5  wkN16l5
	F6  wkN16l6
	F7  wkN16l7
	F8  wkN16l8
	F9  wkN16l9
	F10 wkN16l10
	F11 wkN16l11
	F12 wkN16l12
	F13 wkN16l13
	F14 wkN16l14
	F15 wkN16l15
}
type wkN16l7 []wkN16m7
type wkN16m7 map[string]wkN16s7
type wkN16s8 struct {
	F0  wkN16l0
	F1  wkN16l1
	F2  wkN16l2
	F3  wkN16l3
	F4  wkN16l4
	F5  wkN16l5
	F6  wkN16l6
	F7  wkN16l7
	F8  wkN16l8
	F9  wkN16l9
	F10 wkN16l10
	F11 wkN16l11
	F12 wkN16l12
	F13 wkN16l13
	F14 wkN16l14
	F15 wkN16l15
}
type wkN16l8 []wkN16m8
type wkN16m8 map[string]wkN16s8
type wkN16s9 struct {
	F0  wkN16l0
	F1  wkN16l1
	F2  wkN16l2
	F3  wkN16l3
	F4  wkN16l4
	F5  wkN16l5
	F6  wkN16l6
	F7  wkN16l7
	F8  wkN16l8
	F9  wkN16l9
	F10 wkN16l10
	F11 wkN16l11
	F12 wkN16l12
	F13 wkN16l13
	F14 wkN16l14
	F15 wkN16l15
}
type wkN16l9 []wkN16m9
type wkN16m9 map[string]wkN16s9
type wkN16s10 struct {
	F0  wkN16l0
	F1  wkN16l1
	F2  wkN16l2
	F3  wkN16l3
	F4  wkN16l4
	F5  wkN16l5
	F6  wkN16l6
	F7  wkN16l7
	F8  wkN16l8
	F9  wkN16l9
	F10 wkN16l10
	F11 wkN16l11
	F12 wkN16l12
	F13 wkN16l13
	F14 wkN16l14
	F15 wkN16l15
}
type wkN16l10 []wkN16m10
type wkN16m10 map[string]wkN16s10
type wkN16s11 struct {
	F0  wkN16l0
	F1  wkN16l1
	F2  wkN16l2
	F3  wkN16l3
	F4  wkN16l4
	F5  wkN16l5
	F6  wkN16l6
	F7  wkN16l7
	F8  wkN16l8
	F9  wkN16l9
	F10 wkN16l10
	F11 wkN16l11
	F12 wkN16l12
	F13 wkN16l13
	F14 wkN16l14
	F15 wkN16l15
}
type wkN16l11 []wkN16m11
type wkN16m11 map[string]wkN16s11
type wkN16s12 struct {
	F0  wkN16l0
	F1  wkN16l1
	F2  wkN16l2
	F3  wkN16l3
	F4  wkN16l4
	F5  wkN16l5
	F6  wkN16l6
	F7  wkN16l7
	F8  wkN16l8
	F9  wkN16l9
	F10 wkN16l10
	F11 wkN16l11
	F12 wkN16l12
	F13 wkN16l13
	F14 wkN16l14
	F15 wkN16l15
}
type wkN16l12 []wkN16m12
type wkN16m12 map[string]wkN16s12
type wkN16s13 struct {
	F0  wkN16l0
	F1  wkN16l1
	F2  wkN16l2
	F3  wkN16l3
	F4  wkN16l4
	F5  wkN16l5
	F6  wkN16l6
	F7  wkN16l7
	F8  wkN16l8
	F9  wkN16l9
	F10 wkN16l10
	F11 wkN16l11
	F12 wkN16l12
	F13 wkN16l13
	F14 wkN16l14
	F15 wkN16l15
}
type wkN16l13 []wkN16m13
type wkN16m13 map[string]wkN16s13
type wkN16s14 struct {
	F0  wkN16l0
	F1  wkN16l1
	F2  wkN16l2
	F3  wkN16l3
	F4  wkN16l4
	F5  wkN16l5
	F6  wkN16l6
	F7  wkN16l7
	F8  wkN16l8
	F9  wkN16l9
	F10 wkN16l10
	F11 wkN16l11
	F12 wkN16l12
	F13 wkN16l13
	F14 wkN16l14
	F15 wkN16l15
}
type wkN16l14 []wkN16m14
type wkN16m14 map[string]wkN16s14
type wkN16s15 struct {
	F0  wkN16l0
	F1  wkN16l1
	F2  wkN16l2
	F3  wkN16l3
	F4  wkN16l4
	F5  wkN16l5
	F6  wkN16l6
	F7  wkN16l7
	F8  wkN16l8
	F9  wkN16l9
	F10 wkN16l10
	F11 wkN16l11
	F12 wkN16l12
	F13 wkN16l13
	F14 wkN16l14
	F15 wkN16l15
}
type wkN16l15 []wkN16m15
type wkN16m15 map[string]wkN16s15

var workTypes = []struct {
	name string
	t    reflect.Type
}{
	{"2 types that refer to each other, S", typeOf[wkCS2t0]()},
	{"4 types that refer to each other, S", typeOf[wkCS4t0]()},
	{"6 types that refer to each other, S", typeOf[wkCS6t0]()},
	{"8 types that refer to each other, S", typeOf[wkCS8t0]()},
	{"9 types that refer to each other, S", typeOf[wkCS9t0]()},
	{"10 types that refer to each other, S", typeOf[wkCS10t0]()},
	{"11 types that refer to each other, S", typeOf[wkCS11t0]()},
	{"12 types that refer to each other, S", typeOf[wkCS12t0]()},
	{"16 types that refer to each other, S", typeOf[wkCS16t0]()},
	{"24 types that refer to each other, S", typeOf[wkCS24t0]()},
	{"4 levels of types that refer to the next three times, S", typeOf[wkDS4t4]()},
	{"8 levels of types that refer to the next three times, S", typeOf[wkDS8t8]()},
	{"11 levels of types that refer to the next three times, S", typeOf[wkDS11t11]()},
	{"13 levels of types that refer to the next three times, S", typeOf[wkDS13t13]()},
	{"16 levels of types that refer to the next three times, S", typeOf[wkDS16t16]()},
	{"40 levels of types that refer to the next three times, S", typeOf[wkDS40t40]()},
	{"8 types that refer to all later ones, S", typeOf[wkOS8t0]()},
	{"16 types that refer to all later ones, S", typeOf[wkOS16t0]()},
	{"20 types that refer to all later ones, S", typeOf[wkOS20t0]()},
	{"24 types that refer to all later ones, S", typeOf[wkOS24t0]()},
	{"40 types that refer to all later ones, S", typeOf[wkOS40t0]()},
	{"2 types that refer to each other, P", typeOf[wkCP2t0]()},
	{"4 types that refer to each other, P", typeOf[wkCP4t0]()},
	{"6 types that refer to each other, P", typeOf[wkCP6t0]()},
	{"8 types that refer to each other, P", typeOf[wkCP8t0]()},
	{"9 types that refer to each other, P", typeOf[wkCP9t0]()},
	{"10 types that refer to each other, P", typeOf[wkCP10t0]()},
	{"11 types that refer to each other, P", typeOf[wkCP11t0]()},
	{"12 types that refer to each other, P", typeOf[wkCP12t0]()},
	{"16 types that refer to each other, P", typeOf[wkCP16t0]()},
	{"24 types that refer to each other, P", typeOf[wkCP24t0]()},
	{"4 levels of types that refer to the next three times, P", typeOf[wkDP4t4]()},
	{"8 levels of types that refer to the next three times, P", typeOf[wkDP8t8]()},
	{"11 levels of types that refer to the next three times, P", typeOf[wkDP11t11]()},
	{"13 levels of types that refer to the next three times, P", typeOf[wkDP13t13]()},
	{"16 levels of types that refer to the next three times, P", typeOf[wkDP16t16]()},
	{"40 levels of types that refer to the next three times, P", typeOf[wkDP40t40]()},
	{"8 types that refer to all later ones, P", typeOf[wkOP8t0]()},
	{"16 types that refer to all later ones, P", typeOf[wkOP16t0]()},
	{"20 types that refer to all later ones, P", typeOf[wkOP20t0]()},
	{"24 types that refer to all later ones, P", typeOf[wkOP24t0]()},
	{"40 types that refer to all later ones, P", typeOf[wkOP40t0]()},
	{"2 types that refer to each other, M", typeOf[wkCM2t0]()},
	{"4 types that refer to each other, M", typeOf[wkCM4t0]()},
	{"6 types that refer to each other, M", typeOf[wkCM6t0]()},
	{"8 types that refer to each other, M", typeOf[wkCM8t0]()},
	{"9 types that refer to each other, M", typeOf[wkCM9t0]()},
	{"10 types that refer to each other, M", typeOf[wkCM10t0]()},
	{"11 types that refer to each other, M", typeOf[wkCM11t0]()},
	{"12 types that refer to each other, M", typeOf[wkCM12t0]()},
	{"16 types that refer to each other, M", typeOf[wkCM16t0]()},
	{"24 types that refer to each other, M", typeOf[wkCM24t0]()},
	{"4 levels of types that refer to the next three times, M", typeOf[wkDM4t4]()},
	{"8 levels of types that refer to the next three times, M", typeOf[wkDM8t8]()},
	{"11 levels of types that refer to the next three times, M", typeOf[wkDM11t11]()},
	{"13 levels of types that refer to the next three times, M", typeOf[wkDM13t13]()},
	{"16 levels of types that refer to the next three times, M", typeOf[wkDM16t16]()},
	{"40 levels of types that refer to the next three times, M", typeOf[wkDM40t40]()},
	{"8 types that refer to all later ones, M", typeOf[wkOM8t0]()},
	{"16 types that refer to all later ones, M", typeOf[wkOM16t0]()},
	{"20 types that refer to all later ones, M", typeOf[wkOM20t0]()},
	{"24 types that refer to all later ones, M", typeOf[wkOM24t0]()},
	{"40 types that refer to all later ones, M", typeOf[wkOM40t0]()},
	{"2 types that refer to each other, A", typeOf[wkCA2t0]()},
	{"4 types that refer to each other, A", typeOf[wkCA4t0]()},
	{"6 types that refer to each other, A", typeOf[wkCA6t0]()},
	{"8 types that refer to each other, A", typeOf[wkCA8t0]()},
	{"9 types that refer to each other, A", typeOf[wkCA9t0]()},
	{"10 types that refer to each other, A", typeOf[wkCA10t0]()},
	{"11 types that refer to each other, A", typeOf[wkCA11t0]()},
	{"12 types that refer to each other, A", typeOf[wkCA12t0]()},
	{"16 types that refer to each other, A", typeOf[wkCA16t0]()},
	{"24 types that refer to each other, A", typeOf[wkCA24t0]()},
	{"4 levels of types that refer to the next three times, A", typeOf[wkDA4t4]()},
	{"8 levels of types that refer to the next three times, A", typeOf[wkDA8t8]()},
	{"11 levels of types that refer to the next three times, A", typeOf[wkDA11t11]()},
	{"13 levels of types that refer to the next three times, A", typeOf[wkDA13t13]()},
	{"16 levels of types that refer to the next three times, A", typeOf[wkDA16t16]()},
	{"40 levels of types that refer to the next three times, A", typeOf[wkDA40t40]()},
	{"8 types that refer to all later ones, A", typeOf[wkOA8t0]()},
	{"16 types that refer to all later ones, A", typeOf[wkOA16t0]()},
	{"20 types that refer to all later ones, A", typeOf[wkOA20t0]()},
	{"24 types that refer to all later ones, A", typeOf[wkOA24t0]()},
	{"40 types that refer to all later ones, A", typeOf[wkOA40t0]()},
	{"2 types that refer to each other, Q", typeOf[wkCQ2t0]()},
	{"4 types that refer to each other, Q", typeOf[wkCQ4t0]()},
	{"6 types that refer to each other, Q", typeOf[wkCQ6t0]()},
	{"8 types that refer to each other, Q", typeOf[wkCQ8t0]()},
	{"9 types that refer to each other, Q", typeOf[wkCQ9t0]()},
	{"10 types that refer to each other, Q", typeOf[wkCQ10t0]()},
	{"11 types that refer to each other, Q", typeOf[wkCQ11t0]()},
	{"12 types that refer to each other, Q", typeOf[wkCQ12t0]()},
	{"16 types that refer to each other, Q", typeOf[wkCQ16t0]()},
	{"24 types that refer to each other, Q", typeOf[wkCQ24t0]()},
	{"4 levels of types that refer to the next three times, Q", typeOf[wkDQ4t4]()},
	{"8 levels of types that refer to the next three times, Q", typeOf[wkDQ8t8]()},
	{"11 levels of types that refer to the next three times, Q", typeOf[wkDQ11t11]()},
	{"13 levels of types that refer to the next three times, Q", typeOf[wkDQ13t13]()},
	{"16 levels of types that refer to the next three times, Q", typeOf[wkDQ16t16]()},
	{"40 levels of types that refer to the next three times, Q", typeOf[wkDQ40t40]()},
	{"8 types that refer to all later ones, Q", typeOf[wkOQ8t0]()},
	{"16 types that refer to all later ones, Q", typeOf[wkOQ16t0]()},
	{"20 types that refer to all later ones, Q", typeOf[wkOQ20t0]()},
	{"24 types that refer to all later ones, Q", typeOf[wkOQ24t0]()},
	{"40 types that refer to all later ones, Q", typeOf[wkOQ40t0]()},
	{"2 types that refer to each other, X", typeOf[wkCX2t0]()},
	{"4 types that refer to each other, X", typeOf[wkCX4t0]()},
	{"6 types that refer to each other, X", typeOf[wkCX6t0]()},
	{"8 types that refer to each other, X", typeOf[wkCX8t0]()},
	{"9 types that refer to each other, X", typeOf[wkCX9t0]()},
	{"10 types that refer to each other, X", typeOf[wkCX10t0]()},
	{"11 types that refer to each other, X", typeOf[wkCX11t0]()},
	{"12 types that refer to each other, X", typeOf[wkCX12t0]()},
	{"16 types that refer to each other, X", typeOf[wkCX16t0]()},
	{"24 types that refer to each other, X", typeOf[wkCX24t0]()},
	{"4 levels of types that refer to the next three times, X", typeOf[wkDX4t4]()},
	{"8 levels of types that refer to the next three times, X", typeOf[wkDX8t8]()},
	{"11 levels of types that refer to the next three times, X", typeOf[wkDX11t11]()},
	{"13 levels of types that refer to the next three times, X", typeOf[wkDX13t13]()},
	{"16 levels of types that refer to the next three times, X", typeOf[wkDX16t16]()},
	{"40 levels of types that refer to the next three times, X", typeOf[wkDX40t40]()},
	{"8 types that refer to all later ones, X", typeOf[wkOX8t0]()},
	{"16 types that refer to all later ones, X", typeOf[wkOX16t0]()},
	{"20 types that refer to all later ones, X", typeOf[wkOX20t0]()},
	{"24 types that refer to all later ones, X", typeOf[wkOX24t0]()},
	{"40 types that refer to all later ones, X", typeOf[wkOX40t0]()},
	{"4 defined slices, maps and structs that refer to each other", typeOf[wkN4l0]()},
	{"8 defined slices, maps and structs that refer to each other", typeOf[wkN8l0]()},
	{"10 defined slices, maps and structs that refer to each other", typeOf[wkN10l0]()},
	{"12 defined slices, maps and structs that refer to each other", typeOf[wkN12l0]()},
	{"16 defined slices, maps and structs that refer to each other", typeOf[wkN16l0]()},
}
