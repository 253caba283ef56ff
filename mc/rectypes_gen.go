// Code generated by tools/gen_rectypes.py; DO NOT EDIT.

package main

import "reflect"

type m1S0 struct{ X *m1S0 }
type m1S1 struct{ X []m1S1 }
type m1S2 struct{ X []*m1S2 }
type m1S3 struct{ X map[string]m1S3 }
type m1S4 struct{ X map[int]*m1S4 }
type m1S5 struct{ X [1]*m1S5 }
type m1S6 struct{ X *[1]m1S6 }
type m1S7 struct{ X [1][]m1S7 }
type m1S8 struct{ X []map[int]m1S8 }
type m1N0 *m1N0
type m1N1 []m1N1
type m1N2 []*m1N2
type m1N3 map[string]m1N3
type m1N4 map[int]*m1N4
type m1N5 [1]*m1N5
type m1N6 *[1]m1N6
type m1N7 [1][]m1N7
type m1N8 []map[int]m1N8
type m2S0S0a struct{ X *m2S0S0b }
type m2S0S0b struct{ X *m2S0S0a }
type m2S0S1a struct{ X *m2S0S1b }
type m2S0S1b struct{ X []m2S0S1a }
type m2S0S2a struct{ X *m2S0S2b }
type m2S0S2b struct{ X []*m2S0S2a }
type m2S0S3a struct{ X *m2S0S3b }
type m2S0S3b struct{ X map[string]m2S0S3a }
type m2S0S4a struct{ X *m2S0S4b }
type m2S0S4b struct{ X map[int]*m2S0S4a }
type m2S0S5a struct{ X *m2S0S5b }
type m2S0S5b struct{ X [1]*m2S0S5a }
type m2S0S6a struct{ X *m2S0S6b }
type m2S0S6b struct{ X *[1]m2S0S6a }
type m2S0S7a struct{ X *m2S0S7b }
type m2S0S7b struct{ X [1][]m2S0S7a }
type m2S0S8a struct{ X *m2S0S8b }
type m2S0S8b struct{ X []map[int]m2S0S8a }
type m2S0S9a struct{ X *m2S0S9b }
type m2S0S9b struct{ X m2S0S9a }
type m2S0N0a struct{ X *m2S0N0b }
type m2S0N0b *m2S0N0a
type m2S0N1a struct{ X *m2S0N1b }
type m2S0N1b []m2S0N1a
type m2S0N2a struct{ X *m2S0N2b }
type m2S0N2b []*m2S0N2a
type m2S0N3a struct{ X *m2S0N3b }
type m2S0N3b map[string]m2S0N3a
type m2S0N4a struct{ X *m2S0N4b }
type m2S0N4b map[int]*m2S0N4a
type m2S0N5a struct{ X *m2S0N5b }
type m2S0N5b [1]*m2S0N5a
type m2S0N6a struct{ X *m2S0N6b }
type m2S0N6b *[1]m2S0N6a
type m2S0N7a struct{ X *m2S0N7b }
type m2S0N7b [1][]m2S0N7a
type m2S0N8a struct{ X *m2S0N8b }
type m2S0N8b []map[int]m2S0N8a
type m2S1S0a struct{ X []m2S1S0b }
type m2S1S0b struct{ X *m2S1S0a }
type m2S1S1a struct{ X []m2S1S1b }
type m2S1S1b struct{ X []m2S1S1a }
type m2S1S2a struct{ X []m2S1S2b }
type m2S1S2b struct{ X []*m2S1S2a }
type m2S1S3a struct{ X []m2S1S3b }
type m2S1S3b struct{ X map[string]m2S1S3a }
type m2S1S4a struct{ X []m2S1S4b }
type m2S1S4b struct{ X map[int]*m2S1S4a }
type m2S1S5a struct{ X []m2S1S5b }
type m2S1S5b struct{ X [1]*m2S1S5a }
type m2S1S6a struct{ X []m2S1S6b }
type m2S1S6b struct{ X *[1]m2S1S6a }
type m2S1S7a struct{ X []m2S1S7b }
type m2S1S7b struct{ X [1][]m2S1S7a }
type m2S1S8a struct{ X []m2S1S8b }
type m2S1S8b struct{ X []map[int]m2S1S8a }
type m2S1S9a struct{ X []m2S1S9b }
type m2S1S9b struct{ X m2S1S9a }
type m2S1N0a struct{ X []m2S1N0b }
type m2S1N0b *m2S1N0a
type m2S1N1a struct{ X []m2S1N1b }
type m2S1N1b []m2S1N1a
type m2S1N2a struct{ X []m2S1N2b }
type m2S1N2b []*m2S1N2a
type m2S1N3a struct{ X []m2S1N3b }
type m2S1N3b map[string]m2S1N3a
type m2S1N4a struct{ X []m2S1N4b }
type m2S1N4b map[int]*m2S1N4a
type m2S1N5a struct{ X []m2S1N5b }
type m2S1N5b [1]*m2S1N5a
type m2S1N6a struct{ X []m2S1N6b }
type m2S1N6b *[1]m2S1N6a
type m2S1N7a struct{ X []m2S1N7b }
type m2S1N7b [1][]m2S1N7a
type m2S1N8a struct{ X []m2S1N8b }
type m2S1N8b []map[int]m2S1N8a
type m2S2S0a struct{ X []*m2S2S0b }
type m2S2S0b struct{ X *m2S2S0a }
type m2S2S1a struct{ X []*m2S2S1b }
type m2S2S1b struct{ X []m2S2S1a }
type m2S2S2a struct{ X []*m2S2S2b }
type m2S2S2b struct{ X []*m2S2S2a }
type m2S2S3a struct{ X []*m2S2S3b }
type m2S2S3b struct{ X map[string]m2S2S3a }
type m2S2S4a struct{ X []*m2S2S4b }
type m2S2S4b struct{ X map[int]*m2S2S4a }
type m2S2S5a struct{ X []*m2S2S5b }
type m2S2S5b struct{ X [1]*m2S2S5a }
type m2S2S6a struct{ X []*m2S2S6b }
type m2S2S6b struct{ X *[1]m2S2S6a }
type m2S2S7a struct{ X []*m2S2S7b }
type m2S2S7b struct{ X [1][]m2S2S7a }
type m2S2S8a struct{ X []*m2S2S8b }
type m2S2S8b struct{ X []map[int]m2S2S8a }
type m2S2S9a struct{ X []*m2S2S9b }
type m2S2S9b struct{ X m2S2S9a }
type m2S2N0a struct{ X []*m2S2N0b }
type m2S2N0b *m2S2N0a
type m2S2N1a struct{ X []*m2S2N1b }
type m2S2N1b []m2S2N1a
type m2S2N2a struct{ X []*m2S2N2b }
type m2S2N2b []*m2S2N2a
type m2S2N3a struct{ X []*m2S2N3b }
type m2S2N3b map[string]m2S2N3a
type m2S2N4a struct{ X []*m2S2N4b }
type m2S2N4b map[int]*m2S2N4a
type m2S2N5a struct{ X []*m2S2N5b }
type m2S2N5b [1]*m2S2N5a
type m2S2N6a struct{ X []*m2S2N6b }
type m2S2N6b *[1]m2S2N6a
type m2S2N7a struct{ X []*m2S2N7b }
type m2S2N7b [1][]m2S2N7a
type m2S2N8a struct{ X []*m2S2N8b }
type m2S2N8b []map[int]m2S2N8a
type m2S3S0a struct{ X map[string]m2S3S0b }
type m2S3S0b struct{ X *m2S3S0a }
type m2S3S1a struct{ X map[string]m2S3S1b }
type m2S3S1b struct{ X []m2S3S1a }
type m2S3S2a struct{ X map[string]m2S3S2b }
type m2S3S2b struct{ X []*m2S3S2a }
type m2S3S3a struct{ X map[string]m2S3S3b }
type m2S3S3b struct{ X map[string]m2S3S3a }
type m2S3S4a struct{ X map[string]m2S3S4b }
type m2S3S4b struct{ X map[int]*m2S3S4a }
type m2S3S5a struct{ X map[string]m2S3S5b }
type m2S3S5b struct{ X [1]*m2S3S5a }
type m2S3S6a struct{ X map[string]m2S3S6b }
type m2S3S6b struct{ X *[1]m2S3S6a }
type m2S3S7a struct{ X map[string]m2S3S7b }
type m2S3S7b struct{ X [1][]m2S3S7a }
type m2S3S8a struct{ X map[string]m2S3S8b }
type m2S3S8b struct{ X []map[int]m2S3S8a }
type m2S3S9a struct{ X map[string]m2S3S9b }
type m2S3S9b struct{ X m2S3S9a }
type m2S3N0a struct{ X map[string]m2S3N0b }
type m2S3N0b *m2S3N0a
type m2S3N1a struct{ X map[string]m2S3N1b }
type m2S3N1b []m2S3N1a
type m2S3N2a struct{ X map[string]m2S3N2b }
type m2S3N2b []*m2S3N2a
type m2S3N3a struct{ X map[string]m2S3N3b }
type m2S3N3b map[string]m2S3N3a
type m2S3N4a struct{ X map[string]m2S3N4b }
type m2S3N4b map[int]*m2S3N4a
type m2S3N5a struct{ X map[string]m2S3N5b }
type m2S3N5b [1]*m2S3N5a
type m2S3N6a struct{ X map[string]m2S3N6b }
type m2S3N6b *[1]m2S3N6a
type m2S3N7a struct{ X map[string]m2S3N7b }
type m2S3N7b [1][]m2S3N7a
type m2S3N8a struct{ X map[string]m2S3N8b }
type m2S3N8b []map[int]m2S3N8a
type m2S4S0a struct{ X map[int]*m2S4S0b }
type m2S4S0b struct{ X *m2S4S0a }
type m2S4S1a struct{ X map[int]*m2S4S1b }
type m2S4S1b struct{ X []m2S4S1a }
type m2S4S2a struct{ X map[int]*m2S4S2b }
type m2S4S2b struct{ X []*m2S4S2a }
type m2S4S3a struct{ X map[int]*m2S4S3b }
type m2S4S3b struct{ X map[string]m2S4S3a }
type m2S4S4a struct{ X map[int]*m2S4S4b }
type m2S4S4b struct{ X map[int]*m2S4S4a }
type m2S4S5a struct{ X map[int]*m2S4S5b }
type m2S4S5b struct{ X [1]*m2S4S5a }
type m2S4S6a struct{ X map[int]*m2S4S6b }
type m2S4S6b struct{ X *[1]m2S4S6a }
type m2S4S7a struct{ X map[int]*m2S4S7b }
type m2S4S7b struct{ X [1][]m2S4S7a }
type m2S4S8a struct{ X map[int]*m2S4S8b }
type m2S4S8b struct{ X []map[int]m2S4S8a }
type m2S4S9a struct{ X map[int]*m2S4S9b }
type m2S4S9b struct{ X m2S4S9a }
type m2S4N0a struct{ X map[int]*m2S4N0b }
type m2S4N0b *m2S4N0a
type m2S4N1a struct{ X map[int]*m2S4N1b }
type m2S4N1b []m2S4N1a
type m2S4N2a struct{ X map[int]*m2S4N2b }
type m2S4N2b []*m2S4N2a
type m2S4N3a struct{ X map[int]*m2S4N3b }
type m2S4N3b map[string]m2S4N3a
type m2S4N4a struct{ X map[int]*m2S4N4b }
type m2S4N4b map[int]*m2S4N4a
type m2S4N5a struct{ X map[int]*m2S4N5b }
type m2S4N5b [1]*m2S4N5a
type m2S4N6a struct{ X map[int]*m2S4N6b }
type m2S4N6b *[1]m2S4N6a
type m2S4N7a struct{ X map[int]*m2S4N7b }
type m2S4N7b [1][]m2S4N7a
type m2S4N8a struct{ X map[int]*m2S4N8b }
type m2S4N8b []map[int]m2S4N8a
type m2S5S0a struct{ X [1]*m2S5S0b }
type m2S5S0b struct{ X *m2S5S0a }
type m2S5S1a struct{ X [1]*m2S5S1b }
type m2S5S1b struct{ X []m2S5S1a }
type m2S5S2a struct{ X [1]*m2S5S2b }
type m2S5S2b struct{ X []*m2S5S2a }
type m2S5S3a struct{ X [1]*m2S5S3b }
type m2S5S3b struct{ X map[string]m2S5S3a }
type m2S5S4a struct{ X [1]*m2S5S4b }
type m2S5S4b struct{ X map[int]*m2S5S4a }
type m2S5S5a struct{ X [1]*m2S5S5b }
type m2S5S5b struct{ X [1]*m2S5S5a }
type m2S5S6a struct{ X [1]*m2S5S6b }
type m2S5S6b struct{ X *[1]m2S5S6a }
type m2S5S7a struct{ X [1]*m2S5S7b }
type m2S5S7b struct{ X [1][]m2S5S7a }
type m2S5S8a struct{ X [1]*m2S5S8b }
type m2S5S8b struct{ X []map[int]m2S5S8a }
type m2S5S9a struct{ X [1]*m2S5S9b }
type m2S5S9b struct{ X m2S5S9a }
type m2S5N0a struct{ X [1]*m2S5N0b }
type m2S5N0b *m2S5N0a
type m2S5N1a struct{ X [1]*m2S5N1b }
type m2S5N1b []m2S5N1a
type m2S5N2a struct{ X [1]*m2S5N2b }
type m2S5N2b []*m2S5N2a
type m2S5N3a struct{ X [1]*m2S5N3b }
type m2S5N3b map[string]m2S5N3a
type m2S5N4a struct{ X [1]*m2S5N4b }
type m2S5N4b map[int]*m2S5N4a
type m2S5N5a struct{ X [1]*m2S5N5b }
type m2S5N5b [1]*m2S5N5a
type m2S5N6a struct{ X [1]*m2S5N6b }
type m2S5N6b *[1]m2S5N6a
type m2S5N7a struct{ X [1]*m2S5N7b }
type m2S5N7b [1][]m2S5N7a
type m2S5N8a struct{ X [1]*m2S5N8b }
type m2S5N8b []map[int]m2S5N8a
type m2S6S0a struct{ X *[1]m2S6S0b }
type m2S6S0b struct{ X *m2S6S0a }
type m2S6S1a struct{ X *[1]m2S6S1b }
type m2S6S1b struct{ X []m2S6S1a }
type m2S6S2a struct{ X *[1]m2S6S2b }
type m2S6S2b struct{ X []*m2S6S2a }
type m2S6S3a struct{ X *[1]m2S6S3b }
type m2S6S3b struct{ X map[string]m2S6S3a }
type m2S6S4a struct{ X *[1]m2S6S4b }
type m2S6S4b struct{ X map[int]*m2S6S4a }
type m2S6S5a struct{ X *[1]m2S6S5b }
type m2S6S5b struct{ X [1]*m2S6S5a }
type m2S6S6a struct{ X *[1]m2S6S6b }
type m2S6S6b struct{ X *[1]m2S6S6a }
type m2S6S7a struct{ X *[1]m2S6S7b }
type m2S6S7b struct{ X [1][]m2S6S7a }
type m2S6S8a struct{ X *[1]m2S6S8b }
type m2S6S8b struct{ X []map[int]m2S6S8a }
type m2S6S9a struct{ X *[1]m2S6S9b }
type m2S6S9b struct{ X m2S6S9a }
type m2S6N0a struct{ X *[1]m2S6N0b }
type m2S6N0b *m2S6N0a
type m2S6N1a struct{ X *[1]m2S6N1b }
type m2S6N1b []m2S6N1a
type m2S6N2a struct{ X *[1]m2S6N2b }
type m2S6N2b []*m2S6N2a
type m2S6N3a struct{ X *[1]m2S6N3b }
type m2S6N3b map[string]m2S6N3a
type m2S6N4a struct{ X *[1]m2S6N4b }
type m2S6N4b map[int]*m2S6N4a
type m2S6N5a struct{ X *[1]m2S6N5b }
type m2S6N5b [1]*m2S6N5a
type m2S6N6a struct{ X *[1]m2S6N6b }
type m2S6N6b *[1]m2S6N6a
type m2S6N7a struct{ X *[1]m2S6N7b }
type m2S6N7b [1][]m2S6N7a
type m2S6N8a struct{ X *[1]m2S6N8b }
type m2S6N8b []map[int]m2S6N8a
type m2S7S0a struct{ X [1][]m2S7S0b }
type m2S7S0b struct{ X *m2S7S0a }
type m2S7S1a struct{ X [1][]m2S7S1b }
type m2S7S1b struct{ X []m2S7S1a }
type m2S7S2a struct{ X [1][]m2S7S2b }
type m2S7S2b struct{ X []*m2S7S2a }
type m2S7S3a struct{ X [1][]m2S7S3b }
type m2S7S3b struct{ X map[string]m2S7S3a }
type m2S7S4a struct{ X [1][]m2S7S4b }
type m2S7S4b struct{ X map[int]*m2S7S4a }
type m2S7S5a struct{ X [1][]m2S7S5b }
type m2S7S5b struct{ X [1]*m2S7S5a }
type m2S7S6a struct{ X [1][]m2S7S6b }
type m2S7S6b struct{ X *[1]m2S7S6a }
type m2S7S7a struct{ X [1][]m2S7S7b }
type m2S7S7b struct{ X [1][]m2S7S7a }
type m2S7S8a struct{ X [1][]m2S7S8b }
type m2S7S8b struct{ X []map[int]m2S7S8a }
type m2S7S9a struct{ X [1][]m2S7S9b }
type m2S7S9b struct{ X m2S7S9a }
type m2S7N0a struct{ X [1][]m2S7N0b }
type m2S7N0b *m2S7N0a
type m2S7N1a struct{ X [1][]m2S7N1b }
type m2S7N1b []m2S7N1a
type m2S7N2a struct{ X [1][]m2S7N2b }
type m2S7N2b []*m2S7N2a
type m2S7N3a struct{ X [1][]m2S7N3b }
type m2S7N3b map[string]m2S7N3a
type m2S7N4a struct{ X [1][]m2S7N4b }
type m2S7N4b map[int]*m2S7N4a
type m2S7N5a struct{ X [1][]m2S7N5b }
type m2S7N5b [1]*m2S7N5a
type m2S7N6a struct{ X [1][]m2S7N6b }
type m2S7N6b *[1]m2S7N6a
type m2S7N7a struct{ X [1][]m2S7N7b }
type m2S7N7b [1][]m2S7N7a
type m2S7N8a struct{ X [1][]m2S7N8b }
type m2S7N8b []map[int]m2S7N8a
type m2S8S0a struct{ X []map[int]m2S8S0b }
type m2S8S0b struct{ X *m2S8S0a }
type m2S8S1a struct{ X []map[int]m2S8S1b }
type m2S8S1b struct{ X []m2S8S1a }
type m2S8S2a struct{ X []map[int]m2S8S2b }
type m2S8S2b struct{ X []*m2S8S2a }
type m2S8S3a struct{ X []map[int]m2S8S3b }
type m2S8S3b struct{ X map[string]m2S8S3a }
type m2S8S4a struct{ X []map[int]m2S8S4b }
type m2S8S4b struct{ X map[int]*m2S8S4a }
type m2S8S5a struct{ X []map[int]m2S8S5b }
type m2S8S5b struct{ X [1]*m2S8S5a }
type m2S8S6a struct{ X []map[int]m2S8S6b }
type m2S8S6b struct{ X *[1]m2S8S6a }
type m2S8S7a struct{ X []map[int]m2S8S7b }
type m2S8S7b struct{ X [1][]m2S8S7a }
type m2S8S8a struct{ X []map[int]m2S8S8b }
type m2S8S8b struct{ X []map[int]m2S8S8a }
type m2S8S9a struct{ X []map[int]m2S8S9b }
type m2S8S9b struct{ X m2S8S9a }
type m2S8N0a struct{ X []map[int]m2S8N0b }
type m2S8N0b *m2S8N0a
type m2S8N1a struct{ X []map[int]m2S8N1b }
type m2S8N1b []m2S8N1a
type m2S8N2a struct{ X []map[int]m2S8N2b }
type m2S8N2b []*m2S8N2a
type m2S8N3a struct{ X []map[int]m2S8N3b }
type m2S8N3b map[string]m2S8N3a
type m2S8N4a struct{ X []map[int]m2S8N4b }
type m2S8N4b map[int]*m2S8N4a
type m2S8N5a struct{ X []map[int]m2S8N5b }
type m2S8N5b [1]*m2S8N5a
type m2S8N6a struct{ X []map[int]m2S8N6b }
type m2S8N6b *[1]m2S8N6a
type m2S8N7a struct{ X []map[int]m2S8N7b }
type m2S8N7b [1][]m2S8N7a
type m2S8N8a struct{ X []map[int]m2S8N8b }
type m2S8N8b []map[int]m2S8N8a
type m2S9S0a struct{ X m2S9S0b }
type m2S9S0b struct{ X *m2S9S0a }
type m2S9S1a struct{ X m2S9S1b }
type m2S9S1b struct{ X []m2S9S1a }
type m2S9S2a struct{ X m2S9S2b }
type m2S9S2b struct{ X []*m2S9S2a }
type m2S9S3a struct{ X m2S9S3b }
type m2S9S3b struct{ X map[string]m2S9S3a }
type m2S9S4a struct{ X m2S9S4b }
type m2S9S4b struct{ X map[int]*m2S9S4a }
type m2S9S5a struct{ X m2S9S5b }
type m2S9S5b struct{ X [1]*m2S9S5a }
type m2S9S6a struct{ X m2S9S6b }
type m2S9S6b struct{ X *[1]m2S9S6a }
type m2S9S7a struct{ X m2S9S7b }
type m2S9S7b struct{ X [1][]m2S9S7a }
type m2S9S8a struct{ X m2S9S8b }
type m2S9S8b struct{ X []map[int]m2S9S8a }
type m2S9N0a struct{ X m2S9N0b }
type m2S9N0b *m2S9N0a
type m2S9N1a struct{ X m2S9N1b }
type m2S9N1b []m2S9N1a
type m2S9N2a struct{ X m2S9N2b }
type m2S9N2b []*m2S9N2a
type m2S9N3a struct{ X m2S9N3b }
type m2S9N3b map[string]m2S9N3a
type m2S9N4a struct{ X m2S9N4b }
type m2S9N4b map[int]*m2S9N4a
type m2S9N5a struct{ X m2S9N5b }
type m2S9N5b [1]*m2S9N5a
type m2S9N6a struct{ X m2S9N6b }
type m2S9N6b *[1]m2S9N6a
type m2S9N7a struct{ X m2S9N7b }
type m2S9N7b [1][]m2S9N7a
type m2S9N8a struct{ X m2S9N8b }
type m2S9N8b []map[int]m2S9N8a
type m2N0S0a *m2N0S0b
type m2N0S0b struct{ X *m2N0S0a }
type m2N0S1a *m2N0S1b
type m2N0S1b struct{ X []m2N0S1a }
type m2N0S2a *m2N0S2b
type m2N0S2b struct{ X []*m2N0S2a }
type m2N0S3a *m2N0S3b
type m2N0S3b struct{ X map[string]m2N0S3a }
type m2N0S4a *m2N0S4b
type m2N0S4b struct{ X map[int]*m2N0S4a }
type m2N0S5a *m2N0S5b
type m2N0S5b struct{ X [1]*m2N0S5a }
type m2N0S6a *m2N0S6b
type m2N0S6b struct{ X *[1]m2N0S6a }
type m2N0S7a *m2N0S7b
type m2N0S7b struct{ X [1][]m2N0S7a }
type m2N0S8a *m2N0S8b
type m2N0S8b struct{ X []map[int]m2N0S8a }
type m2N0S9a *m2N0S9b
type m2N0S9b struct{ X m2N0S9a }
type m2N0N0a *m2N0N0b
type m2N0N0b *m2N0N0a
type m2N0N1a *m2N0N1b
type m2N0N1b []m2N0N1a
type m2N0N2a *m2N0N2b
type m2N0N2b []*m2N0N2a
type m2N0N3a *m2N0N3b
type m2N0N3b map[string]m2N0N3a
type m2N0N4a *m2N0N4b
type m2N0N4b map[int]*m2N0N4a
type m2N0N5a *m2N0N5b
type m2N0N5b [1]*m2N0N5a
type m2N0N6a *m2N0N6b
type m2N0N6b *[1]m2N0N6a
type m2N0N7a *m2N0N7b
type m2N0N7b [1][]m2N0N7a
type m2N0N8a *m2N0N8b
type m2N0N8b []map[int]m2N0N8a
type m2N1S0a []m2N1S0b
type m2N1S0b struct{ X *m2N1S0a }
type m2N1S1a []m2N1S1b
type m2N1S1b struct{ X []m2N1S1a }
type m2N1S2a []m2N1S2b
type m2N1S2b struct{ X []*m2N1S2a }
type m2N1S3a []m2N1S3b
type m2N1S3b struct{ X map[string]m2N1S3a }
type m2N1S4a []m2N1S4b
type m2N1S4b struct{ X map[int]*m2N1S4a }
type m2N1S5a []m2N1S5b
type m2N1S5b struct{ X [1]*m2N1S5a }
type m2N1S6a []m2N1S6b
type m2N1S6b struct{ X *[1]m2N1S6a }
type m2N1S7a []m2N1S7b
type m2N1S7b struct{ X [1][]m2N1S7a }
type m2N1S8a []m2N1S8b
type m2N1S8b struct{ X []map[int]m2N1S8a }
type m2N1S9a []m2N1S9b
type m2N1S9b struct{ X m2N1S9a }
type m2N1N0a []m2N1N0b
type m2N1N0b *m2N1N0a
type m2N1N1a []m2N1N1b
type m2N1N1b []m2N1N1a
type m2N1N2a []m2N1N2b
type m2N1N2b []*m2N1N2a
type m2N1N3a []m2N1N3b
type m2N1N3b map[string]m2N1N3a
type m2N1N4a []m2N1N4b
type m2N1N4b map[int]*m2N1N4a
type m2N1N5a []m2N1N5b
type m2N1N5b [1]*m2N1N5a
type m2N1N6a []m2N1N6b
type m2N1N6b *[1]m2N1N6a
type m2N1N7a []m2N1N7b
type m2N1N7b [1][]m2N1N7a
type m2N1N8a []m2N1N8b
type m2N1N8b []map[int]m2N1N8a
type m2N2S0a []*m2N2S0b
type m2N2S0b struct{ X *m2N2S0a }
type m2N2S1a []*m2N2S1b
type m2N2S1b struct{ X []m2N2S1a }
type m2N2S2a []*m2N2S2b
type m2N2S2b struct{ X []*m2N2S2a }
type m2N2S3a []*m2N2S3b
type m2N2S3b struct{ X map[string]m2N2S3a }
type m2N2S4a []*m2N2S4b
type m2N2S4b struct{ X map[int]*m2N2S4a }
type m2N2S5a []*m2N2S5b
type m2N2S5b struct{ X [1]*m2N2S5a }
type m2N2S6a []*m2N2S6b
type m2N2S6b struct{ X *[1]m2N2S6a }
type m2N2S7a []*m2N2S7b
type m2N2S7b struct{ X [1][]m2N2S7a }
type m2N2S8a []*m2N2S8b
type m2N2S8b struct{ X []map[int]m2N2S8a }
type m2N2S9a []*m2N2S9b
type m2N2S9b struct{ X m2N2S9a }
type m2N2N0a []*m2N2N0b
type m2N2N0b *m2N2N0a
type m2N2N1a []*m2N2N1b
type m2N2N1b []m2N2N1a
type m2N2N2a []*m2N2N2b
type m2N2N2b []*m2N2N2a
type m2N2N3a []*m2N2N3b
type m2N2N3b map[string]m2N2N3a
type m2N2N4a []*m2N2N4b
type m2N2N4b map[int]*m2N2N4a
type m2N2N5a []*m2N2N5b
type m2N2N5b [1]*m2N2N5a
type m2N2N6a []*m2N2N6b
type m2N2N6b *[1]m2N2N6a
type m2N2N7a []*m2N2N7b
type m2N2N7b [1][]m2N2N7a
type m2N2N8a []*m2N2N8b
type m2N2N8b []map[int]m2N2N8a
type m2N3S0a map[string]m2N3S0b
type m2N3S0b struct{ X *m2N3S0a }
type m2N3S1a map[string]m2N3S1b
type m2N3S1b struct{ X []m2N3S1a }
type m2N3S2a map[string]m2N3S2b
type m2N3S2b struct{ X []*m2N3S2a }
type m2N3S3a map[string]m2N3S3b
type m2N3S3b struct{ X map[string]m2N3S3a }
type m2N3S4a map[string]m2N3S4b
type m2N3S4b struct{ X map[int]*m2N3S4a }
type m2N3S5a map[string]m2N3S5b
type m2N3S5b struct{ X [1]*m2N3S5a }
type m2N3S6a map[string]m2N3S6b
type m2N3S6b struct{ X *[1]m2N3S6a }
type m2N3S7a map[string]m2N3S7b
type m2N3S7b struct{ X [1][]m2N3S7a }
type m2N3S8a map[string]m2N3S8b
type m2N3S8b struct{ X []map[int]m2N3S8a }
type m2N3S9a map[string]m2N3S9b
type m2N3S9b struct{ X m2N3S9a }
type m2N3N0a map[string]m2N3N0b
type m2N3N0b *m2N3N0a
type m2N3N1a map[string]m2N3N1b
type m2N3N1b []m2N3N1a
type m2N3N2a map[string]m2N3N2b
type m2N3N2b []*m2N3N2a
type m2N3N3a map[string]m2N3N3b
type m2N3N3b map[string]m2N3N3a
type m2N3N4a map[string]m2N3N4b
type m2N3N4b map[int]*m2N3N4a
type m2N3N5a map[string]m2N3N5b
type m2N3N5b [1]*m2N3N5a
type m2N3N6a map[string]m2N3N6b
type m2N3N6b *[1]m2N3N6a
type m2N3N7a map[string]m2N3N7b
type m2N3N7b [1][]m2N3N7a
type m2N3N8a map[string]m2N3N8b
type m2N3N8b []map[int]m2N3N8a
type m2N4S0a map[int]*m2N4S0b
type m2N4S0b struct{ X *m2N4S0a }
type m2N4S1a map[int]*m2N4S1b
type m2N4S1b struct{ X []m2N4S1a }
type m2N4S2a map[int]*m2N4S2b
type m2N4S2b struct{ X []*m2N4S2a }
type m2N4S3a map[int]*m2N4S3b
type m2N4S3b struct{ X map[string]m2N4S3a }
type m2N4S4a map[int]*m2N4S4b
type m2N4S4b struct{ X map[int]*m2N4S4a }
type m2N4S5a map[int]*m2N4S5b
type m2N4S5b struct{ X [1]*m2N4S5a }
type m2N4S6a map[int]*m2N4S6b
type m2N4S6b struct{ X *[1]m2N4S6a }
type m2N4S7a map[int]*m2N4S7b
type m2N4S7b struct{ X [1][]m2N4S7a }
type m2N4S8a map[int]*m2N4S8b
type m2N4S8b struct{ X []map[int]m2N4S8a }
type m2N4S9a map[int]*m2N4S9b
type m2N4S9b struct{ X m2N4S9a }
type m2N4N0a map[int]*m2N4N0b
type m2N4N0b *m2N4N0a
type m2N4N1a map[int]*m2N4N1b
type m2N4N1b []m2N4N1a
type m2N4N2a map[int]*m2N4N2b
type m2N4N2b []*m2N4N2a
type m2N4N3a map[int]*m2N4N3b
type m2N4N3b map[string]m2N4N3a
type m2N4N4a map[int]*m2N4N4b
type m2N4N4b map[int]*m2N4N4a
type m2N4N5a map[int]*m2N4N5b
type m2N4N5b [1]*m2N4N5a
type m2N4N6a map[int]*m2N4N6b
type m2N4N6b *[1]m2N4N6a
type m2N4N7a map[int]*m2N4N7b
type m2N4N7b [1][]m2N4N7a
type m2N4N8a map[int]*m2N4N8b
type m2N4N8b []map[int]m2N4N8a
type m2N5S0a [1]*m2N5S0b
type m2N5S0b struct{ X *m2N5S0a }
type m2N5S1a [1]*m2N5S1b
type m2N5S1b struct{ X []m2N5S1a }
type m2N5S2a [1]*m2N5S2b
type m2N5S2b struct{ X []*m2N5S2a }
type m2N5S3a [1]*m2N5S3b
type m2N5S3b struct{ X map[string]m2N5S3a }
type m2N5S4a [1]*m2N5S4b
type m2N5S4b struct{ X map[int]*m2N5S4a }
type m2N5S5a [1]*m2N5S5b
type m2N5S5b struct{ X [1]*m2N5S5a }
type m2N5S6a [1]*m2N5S6b
type m2N5S6b struct{ X *[1]m2N5S6a }
type m2N5S7a [1]*m2N5S7b
type m2N5S7b struct{ X [1][]m2N5S7a }
type m2N5S8a [1]*m2N5S8b
type m2N5S8b struct{ X []map[int]m2N5S8a }
type m2N5S9a [1]*m2N5S9b
type m2N5S9b struct{ X m2N5S9a }
type m2N5N0a [1]*m2N5N0b
type m2N5N0b *m2N5N0a
type m2N5N1a [1]*m2N5N1b
type m2N5N1b []m2N5N1a
type m2N5N2a [1]*m2N5N2b
type m2N5N2b []*m2N5N2a
type m2N5N3a [1]*m2N5N3b
type m2N5N3b map[string]m2N5N3a
type m2N5N4a [1]*m2N5N4b
type m2N5N4b map[int]*m2N5N4a
type m2N5N5a [1]*m2N5N5b
type m2N5N5b [1]*m2N5N5a
type m2N5N6a [1]*m2N5N6b
type m2N5N6b *[1]m2N5N6a
type m2N5N7a [1]*m2N5N7b
type m2N5N7b [1][]m2N5N7a
type m2N5N8a [1]*m2N5N8b
type m2N5N8b []map[int]m2N5N8a
type m2N6S0a *[1]m2N6S0b
type m2N6S0b struct{ X *m2N6S0a }
type m2N6S1a *[1]m2N6S1b
type m2N6S1b struct{ X []m2N6S1a }
type m2N6S2a *[1]m2N6S2b
type m2N6S2b struct{ X []*m2N6S2a }
type m2N6S3a *[1]m2N6S3b
type m2N6S3b struct{ X map[string]m2N6S3a }
type m2N6S4a *[1]m2N6S4b
type m2N6S4b struct{ X map[int]*m2N6S4a }
type m2N6S5a *[1]m2N6S5b
type m2N6S5b struct{ X [1]*m2N6S5a }
type m2N6S6a *[1]m2N6S6b
type m2N6S6b struct{ X *[1]m2N6S6a }
type m2N6S7a *[1]m2N6S7b
type m2N6S7b struct{ X [1][]m2N6S7a }
type m2N6S8a *[1]m2N6S8b
type m2N6S8b struct{ X []map[int]m2N6S8a }
type m2N6S9a *[1]m2N6S9b
type m2N6S9b struct{ X m2N6S9a }
type m2N6N0a *[1]m2N6N0b
type m2N6N0b *m2N6N0a
type m2N6N1a *[1]m2N6N1b
type m2N6N1b []m2N6N1a
type m2N6N2a *[1]m2N6N2b
type m2N6N2b []*m2N6N2a
type m2N6N3a *[1]m2N6N3b
type m2N6N3b map[string]m2N6N3a
type m2N6N4a *[1]m2N6N4b
type m2N6N4b map[int]*m2N6N4a
type m2N6N5a *[1]m2N6N5b
type m2N6N5b [1]*m2N6N5a
type m2N6N6a *[1]m2N6N6b
type m2N6N6b *[1]m2N6N6a
type m2N6N7a *[1]m2N6N7b
type m2N6N7b [1][]m2N6N7a
type m2N6N8a *[1]m2N6N8b
type m2N6N8b []map[int]m2N6N8a
type m2N7S0a [1][]m2N7S0b
type m2N7S0b struct{ X *m2N7S0a }
type m2N7S1a [1][]m2N7S1b
type m2N7S1b struct{ X []m2N7S1a }
type m2N7S2a [1][]m2N7S2b
type m2N7S2b struct{ X []*m2N7S2a }
type m2N7S3a [1][]m2N7S3b
type m2N7S3b struct{ X map[string]m2N7S3a }
type m2N7S4a [1][]m2N7S4b
type m2N7S4b struct{ X map[int]*m2N7S4a }
type m2N7S5a [1][]m2N7S5b
type m2N7S5b struct{ X [1]*m2N7S5a }
type m2N7S6a [1][]m2N7S6b
type m2N7S6b struct{ X *[1]m2N7S6a }
type m2N7S7a [1][]m2N7S7b
type m2N7S7b struct{ X [1][]m2N7S7a }
type m2N7S8a [1][]m2N7S8b
type m2N7S8b struct{ X []map[int]m2N7S8a }
type m2N7S9a [1][]m2N7S9b
type m2N7S9b struct{ X m2N7S9a }
type m2N7N0a [1][]m2N7N0b
type m2N7N0b *m2N7N0a
type m2N7N1a [1][]m2N7N1b
type m2N7N1b []m2N7N1a
type m2N7N2a [1][]m2N7N2b
type m2N7N2b []*m2N7N2a
type m2N7N3a [1][]m2N7N3b
type m2N7N3b map[string]m2N7N3a
type m2N7N4a [1][]m2N7N4b
type m2N7N4b map[int]*m2N7N4a
type m2N7N5a [1][]m2N7N5b
type m2N7N5b [1]*m2N7N5a
type m2N7N6a [1][]m2N7N6b
type m2N7N6b *[1]m2N7N6a
type m2N7N7a [1][]m2N7N7b
type m2N7N7b [1][]m2N7N7a
type m2N7N8a [1][]m2N7N8b
type m2N7N8b []map[int]m2N7N8a
type m2N8S0a []map[int]m2N8S0b
type m2N8S0b struct{ X *m2N8S0a }
type m2N8S1a []map[int]m2N8S1b
type m2N8S1b struct{ X []m2N8S1a }
type m2N8S2a []map[int]m2N8S2b
type m2N8S2b struct{ X []*m2N8S2a }
type m2N8S3a []map[int]m2N8S3b
type m2N8S3b struct{ X map[string]m2N8S3a }
type m2N8S4a []map[int]m2N8S4b
type m2N8S4b struct{ X map[int]*m2N8S4a }
type m2N8S5a []map[int]m2N8S5b
type m2N8S5b struct{ X [1]*m2N8S5a }
type m2N8S6a []map[int]m2N8S6b
type m2N8S6b struct{ X *[1]m2N8S6a }
type m2N8S7a []map[int]m2N8S7b
type m2N8S7b struct{ X [1][]m2N8S7a }
type m2N8S8a []map[int]m2N8S8b
type m2N8S8b struct{ X []map[int]m2N8S8a }
type m2N8S9a []map[int]m2N8S9b
type m2N8S9b struct{ X m2N8S9a }
type m2N8N0a []map[int]m2N8N0b
type m2N8N0b *m2N8N0a
type m2N8N1a []map[int]m2N8N1b
type m2N8N1b []m2N8N1a
type m2N8N2a []map[int]m2N8N2b
type m2N8N2b []*m2N8N2a
type m2N8N3a []map[int]m2N8N3b
type m2N8N3b map[string]m2N8N3a
type m2N8N4a []map[int]m2N8N4b
type m2N8N4b map[int]*m2N8N4a
type m2N8N5a []map[int]m2N8N5b
type m2N8N5b [1]*m2N8N5a
type m2N8N6a []map[int]m2N8N6b
type m2N8N6b *[1]m2N8N6a
type m2N8N7a []map[int]m2N8N7b
type m2N8N7b [1][]m2N8N7a
type m2N8N8a []map[int]m2N8N8b
type m2N8N8b []map[int]m2N8N8a
type m3S0S0S0a struct{ X *m3S0S0S0b }
type m3S0S0S0b struct{ X *m3S0S0S0c }
type m3S0S0S0c struct{ X *m3S0S0S0a }
type m3S0S0S1a struct{ X *m3S0S0S1b }
type m3S0S0S1b struct{ X *m3S0S0S1c }
type m3S0S0S1c struct{ X []m3S0S0S1a }
type m3S0S0S3a struct{ X *m3S0S0S3b }
type m3S0S0S3b struct{ X *m3S0S0S3c }
type m3S0S0S3c struct{ X map[string]m3S0S0S3a }
type m3S0S0S9a struct{ X *m3S0S0S9b }
type m3S0S0S9b struct{ X *m3S0S0S9c }
type m3S0S0S9c struct{ X m3S0S0S9a }
type m3S0S0N1a struct{ X *m3S0S0N1b }
type m3S0S0N1b struct{ X *m3S0S0N1c }
type m3S0S0N1c []m3S0S0N1a
type m3S0S0N3a struct{ X *m3S0S0N3b }
type m3S0S0N3b struct{ X *m3S0S0N3c }
type m3S0S0N3c map[string]m3S0S0N3a
type m3S0S1S0a struct{ X *m3S0S1S0b }
type m3S0S1S0b struct{ X []m3S0S1S0c }
type m3S0S1S0c struct{ X *m3S0S1S0a }
type m3S0S1S1a struct{ X *m3S0S1S1b }
type m3S0S1S1b struct{ X []m3S0S1S1c }
type m3S0S1S1c struct{ X []m3S0S1S1a }
type m3S0S1S3a struct{ X *m3S0S1S3b }
type m3S0S1S3b struct{ X []m3S0S1S3c }
type m3S0S1S3c struct{ X map[string]m3S0S1S3a }
type m3S0S1S9a struct{ X *m3S0S1S9b }
type m3S0S1S9b struct{ X []m3S0S1S9c }
type m3S0S1S9c struct{ X m3S0S1S9a }
type m3S0S1N1a struct{ X *m3S0S1N1b }
type m3S0S1N1b struct{ X []m3S0S1N1c }
type m3S0S1N1c []m3S0S1N1a
type m3S0S1N3a struct{ X *m3S0S1N3b }
type m3S0S1N3b struct{ X []m3S0S1N3c }
type m3S0S1N3c map[string]m3S0S1N3a
type m3S0S3S0a struct{ X *m3S0S3S0b }
type m3S0S3S0b struct{ X map[string]m3S0S3S0c }
type m3S0S3S0c struct{ X *m3S0S3S0a }
type m3S0S3S1a struct{ X *m3S0S3S1b }
type m3S0S3S1b struct{ X map[string]m3S0S3S1c }
type m3S0S3S1c struct{ X []m3S0S3S1a }
type m3S0S3S3a struct{ X *m3S0S3S3b }
type m3S0S3S3b struct{ X map[string]m3S0S3S3c }
type m3S0S3S3c struct{ X map[string]m3S0S3S3a }
type m3S0S3S9a struct{ X *m3S0S3S9b }
type m3S0S3S9b struct{ X map[string]m3S0S3S9c }
type m3S0S3S9c struct{ X m3S0S3S9a }
type m3S0S3N1a struct{ X *m3S0S3N1b }
type m3S0S3N1b struct{ X map[string]m3S0S3N1c }
type m3S0S3N1c []m3S0S3N1a
type m3S0S3N3a struct{ X *m3S0S3N3b }
type m3S0S3N3b struct{ X map[string]m3S0S3N3c }
type m3S0S3N3c map[string]m3S0S3N3a
type m3S0S9S0a struct{ X *m3S0S9S0b }
type m3S0S9S0b struct{ X m3S0S9S0c }
type m3S0S9S0c struct{ X *m3S0S9S0a }
type m3S0S9S1a struct{ X *m3S0S9S1b }
type m3S0S9S1b struct{ X m3S0S9S1c }
type m3S0S9S1c struct{ X []m3S0S9S1a }
type m3S0S9S3a struct{ X *m3S0S9S3b }
type m3S0S9S3b struct{ X m3S0S9S3c }
type m3S0S9S3c struct{ X map[string]m3S0S9S3a }
type m3S0S9S9a struct{ X *m3S0S9S9b }
type m3S0S9S9b struct{ X m3S0S9S9c }
type m3S0S9S9c struct{ X m3S0S9S9a }
type m3S0S9N1a struct{ X *m3S0S9N1b }
type m3S0S9N1b struct{ X m3S0S9N1c }
type m3S0S9N1c []m3S0S9N1a
type m3S0S9N3a struct{ X *m3S0S9N3b }
type m3S0S9N3b struct{ X m3S0S9N3c }
type m3S0S9N3c map[string]m3S0S9N3a
type m3S0N1S0a struct{ X *m3S0N1S0b }
type m3S0N1S0b []m3S0N1S0c
type m3S0N1S0c struct{ X *m3S0N1S0a }
type m3S0N1S1a struct{ X *m3S0N1S1b }
type m3S0N1S1b []m3S0N1S1c
type m3S0N1S1c struct{ X []m3S0N1S1a }
type m3S0N1S3a struct{ X *m3S0N1S3b }
type m3S0N1S3b []m3S0N1S3c
type m3S0N1S3c struct{ X map[string]m3S0N1S3a }
type m3S0N1S9a struct{ X *m3S0N1S9b }
type m3S0N1S9b []m3S0N1S9c
type m3S0N1S9c struct{ X m3S0N1S9a }
type m3S0N1N1a struct{ X *m3S0N1N1b }
type m3S0N1N1b []m3S0N1N1c
type m3S0N1N1c []m3S0N1N1a
type m3S0N1N3a struct{ X *m3S0N1N3b }
type m3S0N1N3b []m3S0N1N3c
type m3S0N1N3c map[string]m3S0N1N3a
type m3S0N3S0a struct{ X *m3S0N3S0b }
type m3S0N3S0b map[string]m3S0N3S0c
type m3S0N3S0c struct{ X *m3S0N3S0a }
type m3S0N3S1a struct{ X *m3S0N3S1b }
type m3S0N3S1b map[string]m3S0N3S1c
type m3S0N3S1c struct{ X []m3S0N3S1a }
type m3S0N3S3a struct{ X *m3S0N3S3b }
type m3S0N3S3b map[string]m3S0N3S3c
type m3S0N3S3c struct{ X map[string]m3S0N3S3a }
type m3S0N3S9a struct{ X *m3S0N3S9b }
type m3S0N3S9b map[string]m3S0N3S9c
type m3S0N3S9c struct{ X m3S0N3S9a }
type m3S0N3N1a struct{ X *m3S0N3N1b }
type m3S0N3N1b map[string]m3S0N3N1c
type m3S0N3N1c []m3S0N3N1a
type m3S0N3N3a struct{ X *m3S0N3N3b }
type m3S0N3N3b map[string]m3S0N3N3c
type m3S0N3N3c map[string]m3S0N3N3a
type m3S1S0S0a struct{ X []m3S1S0S0b }
type m3S1S0S0b struct{ X *m3S1S0S0c }
type m3S1S0S0c struct{ X *m3S1S0S0a }
type m3S1S0S1a struct{ X []m3S1S0S1b }
type m3S1S0S1b struct{ X *m3S1S0S1c }
type m3S1S0S1c struct{ X []m3S1S0S1a }
type m3S1S0S3a struct{ X []m3S1S0S3b }
type m3S1S0S3b struct{ X *m3S1S0S3c }
type m3S1S0S3c struct{ X map[string]m3S1S0S3a }
type m3S1S0S9a struct{ X []m3S1S0S9b }
type m3S1S0S9b struct{ X *m3S1S0S9c }
type m3S1S0S9c struct{ X m3S1S0S9a }
type m3S1S0N1a struct{ X []m3S1S0N1b }
type m3S1S0N1b struct{ X *m3S1S0N1c }
type m3S1S0N1c []m3S1S0N1a
type m3S1S0N3a struct{ X []m3S1S0N3b }
type m3S1S0N3b struct{ X *m3S1S0N3c }
type m3S1S0N3c map[string]m3S1S0N3a
type m3S1S1S0a struct{ X []m3S1S1S0b }
type m3S1S1S0b struct{ X []m3S1S1S0c }
type m3S1S1S0c struct{ X *m3S1S1S0a }
type m3S1S1S1a struct{ X []m3S1S1S1b }
type m3S1S1S1b struct{ X []m3S1S1S1c }
type m3S1S1S1c struct{ X []m3S1S1S1a }
type m3S1S1S3a struct{ X []m3S1S1S3b }
type m3S1S1S3b struct{ X []m3S1S1S3c }
type m3S1S1S3c struct{ X map[string]m3S1S1S3a }
type m3S1S1S9a struct{ X []m3S1S1S9b }
type m3S1S1S9b struct{ X []m3S1S1S9c }
type m3S1S1S9c struct{ X m3S1S1S9a }
type m3S1S1N1a struct{ X []m3S1S1N1b }
type m3S1S1N1b struct{ X []m3S1S1N1c }
type m3S1S1N1c []m3S1S1N1a
type m3S1S1N3a struct{ X []m3S1S1N3b }
type m3S1S1N3b struct{ X []m3S1S1N3c }
type m3S1S1N3c map[string]m3S1S1N3a
type m3S1S3S0a struct{ X []m3S1S3S0b }
type m3S1S3S0b struct{ X map[string]m3S1S3S0c }
type m3S1S3S0c struct{ X *m3S1S3S0a }
type m3S1S3S1a struct{ X []m3S1S3S1b }
type m3S1S3S1b struct{ X map[string]m3S1S3S1c }
type m3S1S3S1c struct{ X []m3S1S3S1a }
type m3S1S3S3a struct{ X []m3S1S3S3b }
type m3S1S3S3b struct{ X map[string]m3S1S3S3c }
type m3S1S3S3c struct{ X map[string]m3S1S3S3a }
type m3S1S3S9a struct{ X []m3S1S3S9b }
type m3S1S3S9b struct{ X map[string]m3S1S3S9c }
type m3S1S3S9c struct{ X m3S1S3S9a }
type m3S1S3N1a struct{ X []m3S1S3N1b }
type m3S1S3N1b struct{ X map[string]m3S1S3N1c }
type m3S1S3N1c []m3S1S3N1a
type m3S1S3N3a struct{ X []m3S1S3N3b }
type m3S1S3N3b struct{ X map[string]m3S1S3N3c }
type m3S1S3N3c map[string]m3S1S3N3a
type m3S1S9S0a struct{ X []m3S1S9S0b }
type m3S1S9S0b struct{ X m3S1S9S0c }
type m3S1S9S0c struct{ X *m3S1S9S0a }
type m3S1S9S1a struct{ X []m3S1S9S1b }
type m3S1S9S1b struct{ X m3S1S9S1c }
type m3S1S9S1c struct{ X []m3S1S9S1a }
type m3S1S9S3a struct{ X []m3S1S9S3b }
type m3S1S9S3b struct{ X m3S1S9S3c }
type m3S1S9S3c struct{ X map[string]m3S1S9S3a }
type m3S1S9S9a struct{ X []m3S1S9S9b }
type m3S1S9S9b struct{ X m3S1S9S9c }
type m3S1S9S9c struct{ X m3S1S9S9a }
type m3S1S9N1a struct{ X []m3S1S9N1b }
type m3S1S9N1b struct{ X m3S1S9N1c }
type m3S1S9N1c []m3S1S9N1a
type m3S1S9N3a struct{ X []m3S1S9N3b }
type m3S1S9N3b struct{ X m3S1S9N3c }
type m3S1S9N3c map[string]m3S1S9N3a
type m3S1N1S0a struct{ X []m3S1N1S0b }
type m3S1N1S0b []m3S1N1S0c
type m3S1N1S0c struct{ X *m3S1N1S0a }
type m3S1N1S1a struct{ X []m3S1N1S1b }
type m3S1N1S1b []m3S1N1S1c
type m3S1N1S1c struct{ X []m3S1N1S1a }
type m3S1N1S3a struct{ X []m3S1N1S3b }
type m3S1N1S3b []m3S1N1S3c
type m3S1N1S3c struct{ X map[string]m3S1N1S3a }
type m3S1N1S9a struct{ X []m3S1N1S9b }
type m3S1N1S9b []m3S1N1S9c
type m3S1N1S9c struct{ X m3S1N1S9a }
type m3S1N1N1a struct{ X []m3S1N1N1b }
type m3S1N1N1b []m3S1N1N1c
type m3S1N1N1c []m3S1N1N1a
type m3S1N1N3a struct{ X []m3S1N1N3b }
type m3S1N1N3b []m3S1N1N3c
type m3S1N1N3c map[string]m3S1N1N3a
type m3S1N3S0a struct{ X []m3S1N3S0b }
type m3S1N3S0b map[string]m3S1N3S0c
type m3S1N3S0c struct{ X *m3S1N3S0a }
type m3S1N3S1a struct{ X []m3S1N3S1b }
type m3S1N3S1b map[string]m3S1N3S1c
type m3S1N3S1c struct{ X []m3S1N3S1a }
type m3S1N3S3a struct{ X []m3S1N3S3b }
type m3S1N3S3b map[string]m3S1N3S3c
type m3S1N3S3c struct{ X map[string]m3S1N3S3a }
type m3S1N3S9a struct{ X []m3S1N3S9b }
type m3S1N3S9b map[string]m3S1N3S9c
type m3S1N3S9c struct{ X m3S1N3S9a }
type m3S1N3N1a struct{ X []m3S1N3N1b }
type m3S1N3N1b map[string]m3S1N3N1c
type m3S1N3N1c []m3S1N3N1a
type m3S1N3N3a struct{ X []m3S1N3N3b }
type m3S1N3N3b map[string]m3S1N3N3c
type m3S1N3N3c map[string]m3S1N3N3a
type m3S3S0S0a struct{ X map[string]m3S3S0S0b }
type m3S3S0S0b struct{ X *m3S3S0S0c }
type m3S3S0S0c struct{ X *m3S3S0S0a }
type m3S3S0S1a struct{ X map[string]m3S3S0S1b }
type m3S3S0S1b struct{ X *m3S3S0S1c }
type m3S3S0S1c struct{ X []m3S3S0S1a }
type m3S3S0S3a struct{ X map[string]m3S3S0S3b }
type m3S3S0S3b struct{ X *m3S3S0S3c }
type m3S3S0S3c struct{ X map[string]m3S3S0S3a }
type m3S3S0S9a struct{ X map[string]m3S3S0S9b }
type m3S3S0S9b struct{ X *m3S3S0S9c }
type m3S3S0S9c struct{ X m3S3S0S9a }
type m3S3S0N1a struct{ X map[string]m3S3S0N1b }
type m3S3S0N1b struct{ X *m3S3S0N1c }
type m3S3S0N1c []m3S3S0N1a
type m3S3S0N3a struct{ X map[string]m3S3S0N3b }
type m3S3S0N3b struct{ X *m3S3S0N3c }
type m3S3S0N3c map[string]m3S3S0N3a
type m3S3S1S0a struct{ X map[string]m3S3S1S0b }
type m3S3S1S0b struct{ X []m3S3S1S0c }
type m3S3S1S0c struct{ X *m3S3S1S0a }
type m3S3S1S1a struct{ X map[string]m3S3S1S1b }
type m3S3S1S1b struct{ X []m3S3S1S1c }
type m3S3S1S1c struct{ X []m3S3S1S1a }
type m3S3S1S3a struct{ X map[string]m3S3S1S3b }
type m3S3S1S3b struct{ X []m3S3S1S3c }
type m3S3S1S3c struct{ X map[string]m3S3S1S3a }
type m3S3S1S9a struct{ X map[string]m3S3S1S9b }
type m3S3S1S9b struct{ X []m3S3S1S9c }
type m3S3S1S9c struct{ X m3S3S1S9a }
type m3S3S1N1a struct{ X map[string]m3S3S1N1b }
type m3S3S1N1b struct{ X []m3S3S1N1c }
type m3S3S1N1c []m3S3S1N1a
type m3S3S1N3a struct{ X map[string]m3S3S1N3b }
type m3S3S1N3b struct{ X []m3S3S1N3c }
type m3S3S1N3c map[string]m3S3S1N3a
type m3S3S3S0a struct{ X map[string]m3S3S3S0b }
type m3S3S3S0b struct{ X map[string]m3S3S3S0c }
type m3S3S3S0c struct{ X *m3S3S3S0a }
type m3S3S3S1a struct{ X map[string]m3S3S3S1b }
type m3S3S3S1b struct{ X map[string]m3S3S3S1c }
type m3S3S3S1c struct{ X []m3S3S3S1a }
type m3S3S3S3a struct{ X map[string]m3S3S3S3b }
type m3S3S3S3b struct{ X map[string]m3S3S3S3c }
type m3S3S3S3c struct{ X map[string]m3S3S3S3a }
type m3S3S3S9a struct{ X map[string]m3S3S3S9b }
type m3S3S3S9b struct{ X map[string]m3S3S3S9c }
type m3S3S3S9c struct{ X m3S3S3S9a }
type m3S3S3N1a struct{ X map[string]m3S3S3N1b }
type m3S3S3N1b struct{ X map[string]m3S3S3N1c }
type m3S3S3N1c []m3S3S3N1a
type m3S3S3N3a struct{ X map[string]m3S3S3N3b }
type m3S3S3N3b struct{ X map[string]m3S3S3N3c }
type m3S3S3N3c map[string]m3S3S3N3a
type m3S3S9S0a struct{ X map[string]m3S3S9S0b }
type m3S3S9S0b struct{ X m3S3S9S0c }
type m3S3S9S0c struct{ X *m3S3S9S0a }
type m3S3S9S1a struct{ X map[string]m3S3S9S1b }
type m3S3S9S1b struct{ X m3S3S9S1c }
type m3S3S9S1c struct{ X []m3S3S9S1a }
type m3S3S9S3a struct{ X map[string]m3S3S9S3b }
type m3S3S9S3b struct{ X m3S3S9S3c }
type m3S3S9S3c struct{ X map[string]m3S3S9S3a }
type m3S3S9S9a struct{ X map[string]m3S3S9S9b }
type m3S3S9S9b struct{ X m3S3S9S9c }
type m3S3S9S9c struct{ X m3S3S9S9a }
type m3S3S9N1a struct{ X map[string]m3S3S9N1b }
type m3S3S9N1b struct{ X m3S3S9N1c }
type m3S3S9N1c []m3S3S9N1a
type m3S3S9N3a struct{ X map[string]m3S3S9N3b }
type m3S3S9N3b struct{ X m3S3S9N3c }
type m3S3S9N3c map[string]m3S3S9N3a
type m3S3N1S0a struct{ X map[string]m3S3N1S0b }
type m3S3N1S0b []m3S3N1S0c
type m3S3N1S0c struct{ X *m3S3N1S0a }
type m3S3N1S1a struct{ X map[string]m3S3N1S1b }
type m3S3N1S1b []m3S3N1S1c
type m3S3N1S1c struct{ X []m3S3N1S1a }
type m3S3N1S3a struct{ X map[string]m3S3N1S3b }
type m3S3N1S3b []m3S3N1S3c
type m3S3N1S3c struct{ X map[string]m3S3N1S3a }
type m3S3N1S9a struct{ X map[string]m3S3N1S9b }
type m3S3N1S9b []m3S3N1S9c
type m3S3N1S9c struct{ X m3S3N1S9a }
type m3S3N1N1a struct{ X map[string]m3S3N1N1b }
type m3S3N1N1b []m3S3N1N1c
type m3S3N1N1c []m3S3N1N1a
type m3S3N1N3a struct{ X map[string]m3S3N1N3b }
type m3S3N1N3b []m3S3N1N3c
type m3S3N1N3c map[string]m3S3N1N3a
type m3S3N3S0a struct{ X map[string]m3S3N3S0b }
type m3S3N3S0b map[string]m3S3N3S0c
type m3S3N3S0c struct{ X *m3S3N3S0a }
type m3S3N3S1a struct{ X map[string]m3S3N3S1b }
type m3S3N3S1b map[string]m3S3N3S1c
type m3S3N3S1c struct{ X []m3S3N3S1a }
type m3S3N3S3a struct{ X map[string]m3S3N3S3b }
type m3S3N3S3b map[string]m3S3N3S3c
type m3S3N3S3c struct{ X map[string]m3S3N3S3a }
type m3S3N3S9a struct{ X map[string]m3S3N3S9b }
type m3S3N3S9b map[string]m3S3N3S9c
type m3S3N3S9c struct{ X m3S3N3S9a }
type m3S3N3N1a struct{ X map[string]m3S3N3N1b }
type m3S3N3N1b map[string]m3S3N3N1c
type m3S3N3N1c []m3S3N3N1a
type m3S3N3N3a struct{ X map[string]m3S3N3N3b }
type m3S3N3N3b map[string]m3S3N3N3c
type m3S3N3N3c map[string]m3S3N3N3a
type m3S9S0S0a struct{ X m3S9S0S0b }
type m3S9S0S0b struct{ X *m3S9S0S0c }
type m3S9S0S0c struct{ X *m3S9S0S0a }
type m3S9S0S1a struct{ X m3S9S0S1b }
type m3S9S0S1b struct{ X *m3S9S0S1c }
type m3S9S0S1c struct{ X []m3S9S0S1a }
type m3S9S0S3a struct{ X m3S9S0S3b }
type m3S9S0S3b struct{ X *m3S9S0S3c }
type m3S9S0S3c struct{ X map[string]m3S9S0S3a }
type m3S9S0S9a struct{ X m3S9S0S9b }
type m3S9S0S9b struct{ X *m3S9S0S9c }
type m3S9S0S9c struct{ X m3S9S0S9a }
type m3S9S0N1a struct{ X m3S9S0N1b }
type m3S9S0N1b struct{ X *m3S9S0N1c }
type m3S9S0N1c []m3S9S0N1a
type m3S9S0N3a struct{ X m3S9S0N3b }
type m3S9S0N3b struct{ X *m3S9S0N3c }
type m3S9S0N3c map[string]m3S9S0N3a
type m3S9S1S0a struct{ X m3S9S1S0b }
type m3S9S1S0b struct{ X []m3S9S1S0c }
type m3S9S1S0c struct{ X *m3S9S1S0a }
type m3S9S1S1a struct{ X m3S9S1S1b }
type m3S9S1S1b struct{ X []m3S9S1S1c }
type m3S9S1S1c struct{ X []m3S9S1S1a }
type m3S9S1S3a struct{ X m3S9S1S3b }
type m3S9S1S3b struct{ X []m3S9S1S3c }
type m3S9S1S3c struct{ X map[string]m3S9S1S3a }
type m3S9S1S9a struct{ X m3S9S1S9b }
type m3S9S1S9b struct{ X []m3S9S1S9c }
type m3S9S1S9c struct{ X m3S9S1S9a }
type m3S9S1N1a struct{ X m3S9S1N1b }
type m3S9S1N1b struct{ X []m3S9S1N1c }
type m3S9S1N1c []m3S9S1N1a
type m3S9S1N3a struct{ X m3S9S1N3b }
type m3S9S1N3b struct{ X []m3S9S1N3c }
type m3S9S1N3c map[string]m3S9S1N3a
type m3S9S3S0a struct{ X m3S9S3S0b }
type m3S9S3S0b struct{ X map[string]m3S9S3S0c }
type m3S9S3S0c struct{ X *m3S9S3S0a }
type m3S9S3S1a struct{ X m3S9S3S1b }
type m3S9S3S1b struct{ X map[string]m3S9S3S1c }
type m3S9S3S1c struct{ X []m3S9S3S1a }
type m3S9S3S3a struct{ X m3S9S3S3b }
type m3S9S3S3b struct{ X map[string]m3S9S3S3c }
type m3S9S3S3c struct{ X map[string]m3S9S3S3a }
type m3S9S3S9a struct{ X m3S9S3S9b }
type m3S9S3S9b struct{ X map[string]m3S9S3S9c }
type m3S9S3S9c struct{ X m3S9S3S9a }
type m3S9S3N1a struct{ X m3S9S3N1b }
type m3S9S3N1b struct{ X map[string]m3S9S3N1c }
type m3S9S3N1c []m3S9S3N1a
type m3S9S3N3a struct{ X m3S9S3N3b }
type m3S9S3N3b struct{ X map[string]m3S9S3N3c }
type m3S9S3N3c map[string]m3S9S3N3a
type m3S9S9S0a struct{ X m3S9S9S0b }
type m3S9S9S0b struct{ X m3S9S9S0c }
type m3S9S9S0c struct{ X *m3S9S9S0a }
type m3S9S9S1a struct{ X m3S9S9S1b }
type m3S9S9S1b struct{ X m3S9S9S1c }
type m3S9S9S1c struct{ X []m3S9S9S1a }
type m3S9S9S3a struct{ X m3S9S9S3b }
type m3S9S9S3b struct{ X m3S9S9S3c }
type m3S9S9S3c struct{ X map[string]m3S9S9S3a }
type m3S9S9N1a struct{ X m3S9S9N1b }
type m3S9S9N1b struct{ X m3S9S9N1c }
type m3S9S9N1c []m3S9S9N1a
type m3S9S9N3a struct{ X m3S9S9N3b }
type m3S9S9N3b struct{ X m3S9S9N3c }
type m3S9S9N3c map[string]m3S9S9N3a
type m3S9N1S0a struct{ X m3S9N1S0b }
type m3S9N1S0b []m3S9N1S0c
type m3S9N1S0c struct{ X *m3S9N1S0a }
type m3S9N1S1a struct{ X m3S9N1S1b }
type m3S9N1S1b []m3S9N1S1c
type m3S9N1S1c struct{ X []m3S9N1S1a }
type m3S9N1S3a struct{ X m3S9N1S3b }
type m3S9N1S3b []m3S9N1S3c
type m3S9N1S3c struct{ X map[string]m3S9N1S3a }
type m3S9N1S9a struct{ X m3S9N1S9b }
type m3S9N1S9b []m3S9N1S9c
type m3S9N1S9c struct{ X m3S9N1S9a }
type m3S9N1N1a struct{ X m3S9N1N1b }
type m3S9N1N1b []m3S9N1N1c
type m3S9N1N1c []m3S9N1N1a
type m3S9N1N3a struct{ X m3S9N1N3b }
type m3S9N1N3b []m3S9N1N3c
type m3S9N1N3c map[string]m3S9N1N3a
type m3S9N3S0a struct{ X m3S9N3S0b }
type m3S9N3S0b map[string]m3S9N3S0c
type m3S9N3S0c struct{ X *m3S9N3S0a }
type m3S9N3S1a struct{ X m3S9N3S1b }
type m3S9N3S1b map[string]m3S9N3S1c
type m3S9N3S1c struct{ X []m3S9N3S1a }
type m3S9N3S3a struct{ X m3S9N3S3b }
type m3S9N3S3b map[string]m3S9N3S3c
type m3S9N3S3c struct{ X map[string]m3S9N3S3a }
type m3S9N3S9a struct{ X m3S9N3S9b }
type m3S9N3S9b map[string]m3S9N3S9c
type m3S9N3S9c struct{ X m3S9N3S9a }
type m3S9N3N1a struct{ X m3S9N3N1b }
type m3S9N3N1b map[string]m3S9N3N1c
type m3S9N3N1c []m3S9N3N1a
type m3S9N3N3a struct{ X m3S9N3N3b }
type m3S9N3N3b map[string]m3S9N3N3c
type m3S9N3N3c map[string]m3S9N3N3a
type m3N1S0S0a []m3N1S0S0b
type m3N1S0S0b struct{ X *m3N1S0S0c }
type m3N1S0S0c struct{ X *m3N1S0S0a }
type m3N1S0S1a []m3N1S0S1b
type m3N1S0S1b struct{ X *m3N1S0S1c }
type m3N1S0S1c struct{ X []m3N1S0S1a }
type m3N1S0S3a []m3N1S0S3b
type m3N1S0S3b struct{ X *m3N1S0S3c }
type m3N1S0S3c struct{ X map[string]m3N1S0S3a }
type m3N1S0S9a []m3N1S0S9b
type m3N1S0S9b struct{ X *m3N1S0S9c }
type m3N1S0S9c struct{ X m3N1S0S9a }
type m3N1S0N1a []m3N1S0N1b
type m3N1S0N1b struct{ X *m3N1S0N1c }
type m3N1S0N1c []m3N1S0N1a
type m3N1S0N3a []m3N1S0N3b
type m3N1S0N3b struct{ X *m3N1S0N3c }
type m3N1S0N3c map[string]m3N1S0N3a
type m3N1S1S0a []m3N1S1S0b
type m3N1S1S0b struct{ X []m3N1S1S0c }
type m3N1S1S0c struct{ X *m3N1S1S0a }
type m3N1S1S1a []m3N1S1S1b
type m3N1S1S1b struct{ X []m3N1S1S1c }
type m3N1S1S1c struct{ X []m3N1S1S1a }
type m3N1S1S3a []m3N1S1S3b
type m3N1S1S3b struct{ X []m3N1S1S3c }
type m3N1S1S3c struct{ X map[string]m3N1S1S3a }
type m3N1S1S9a []m3N1S1S9b
type m3N1S1S9b struct{ X []m3N1S1S9c }
type m3N1S1S9c struct{ X m3N1S1S9a }
type m3N1S1N1a []m3N1S1N1b
type m3N1S1N1b struct{ X []m3N1S1N1c }
type m3N1S1N1c []m3N1S1N1a
type m3N1S1N3a []m3N1S1N3b
type m3N1S1N3b struct{ X []m3N1S1N3c }
type m3N1S1N3c map[string]m3N1S1N3a
type m3N1S3S0a []m3N1S3S0b
type m3N1S3S0b struct{ X map[string]m3N1S3S0c }
type m3N1S3S0c struct{ X *m3N1S3S0a }
type m3N1S3S1a []m3N1S3S1b
type m3N1S3S1b struct{ X map[string]m3N1S3S1c }
type m3N1S3S1c struct{ X []m3N1S3S1a }
type m3N1S3S3a []m3N1S3S3b
type m3N1S3S3b struct{ X map[string]m3N1S3S3c }
type m3N1S3S3c struct{ X map[string]m3N1S3S3a }
type m3N1S3S9a []m3N1S3S9b
type m3N1S3S9b struct{ X map[string]m3N1S3S9c }
type m3N1S3S9c struct{ X m3N1S3S9a }
type m3N1S3N1a []m3N1S3N1b
type m3N1S3N1b struct{ X map[string]m3N1S3N1c }
type m3N1S3N1c []m3N1S3N1a
type m3N1S3N3a []m3N1S3N3b
type m3N1S3N3b struct{ X map[string]m3N1S3N3c }
type m3N1S3N3c map[string]m3N1S3N3a
type m3N1S9S0a []m3N1S9S0b
type m3N1S9S0b struct{ X m3N1S9S0c }
type m3N1S9S0c struct{ X *m3N1S9S0a }
type m3N1S9S1a []m3N1S9S1b
type m3N1S9S1b struct{ X m3N1S9S1c }
type m3N1S9S1c struct{ X []m3N1S9S1a }
type m3N1S9S3a []m3N1S9S3b
type m3N1S9S3b struct{ X m3N1S9S3c }
type m3N1S9S3c struct{ X map[string]m3N1S9S3a }
type m3N1S9S9a []m3N1S9S9b
type m3N1S9S9b struct{ X m3N1S9S9c }
type m3N1S9S9c struct{ X m3N1S9S9a }
type m3N1S9N1a []m3N1S9N1b
type m3N1S9N1b struct{ X m3N1S9N1c }
type m3N1S9N1c []m3N1S9N1a
type m3N1S9N3a []m3N1S9N3b
type m3N1S9N3b struct{ X m3N1S9N3c }
type m3N1S9N3c map[string]m3N1S9N3a
type m3N1N1S0a []m3N1N1S0b
type m3N1N1S0b []m3N1N1S0c
type m3N1N1S0c struct{ X *m3N1N1S0a }
type m3N1N1S1a []m3N1N1S1b
type m3N1N1S1b []m3N1N1S1c
type m3N1N1S1c struct{ X []m3N1N1S1a }
type m3N1N1S3a []m3N1N1S3b
type m3N1N1S3b []m3N1N1S3c
type m3N1N1S3c struct{ X map[string]m3N1N1S3a }
type m3N1N1S9a []m3N1N1S9b
type m3N1N1S9b []m3N1N1S9c
type m3N1N1S9c struct{ X m3N1N1S9a }
type m3N1N1N1a []m3N1N1N1b
type m3N1N1N1b []m3N1N1N1c
type m3N1N1N1c []m3N1N1N1a
type m3N1N1N3a []m3N1N1N3b
type m3N1N1N3b []m3N1N1N3c
type m3N1N1N3c map[string]m3N1N1N3a
type m3N1N3S0a []m3N1N3S0b
type m3N1N3S0b map[string]m3N1N3S0c
type m3N1N3S0c struct{ X *m3N1N3S0a }
type m3N1N3S1a []m3N1N3S1b
type m3N1N3S1b map[string]m3N1N3S1c
type m3N1N3S1c struct{ X []m3N1N3S1a }
type m3N1N3S3a []m3N1N3S3b
type m3N1N3S3b map[string]m3N1N3S3c
type m3N1N3S3c struct{ X map[string]m3N1N3S3a }
type m3N1N3S9a []m3N1N3S9b
type m3N1N3S9b map[string]m3N1N3S9c
type m3N1N3S9c struct{ X m3N1N3S9a }
type m3N1N3N1a []m3N1N3N1b
type m3N1N3N1b map[string]m3N1N3N1c
type m3N1N3N1c []m3N1N3N1a
type m3N1N3N3a []m3N1N3N3b
type m3N1N3N3b map[string]m3N1N3N3c
type m3N1N3N3c map[string]m3N1N3N3a
type m3N3S0S0a map[string]m3N3S0S0b
type m3N3S0S0b struct{ X *m3N3S0S0c }
type m3N3S0S0c struct{ X *m3N3S0S0a }
type m3N3S0S1a map[string]m3N3S0S1b
type m3N3S0S1b struct{ X *m3N3S0S1c }
type m3N3S0S1c struct{ X []m3N3S0S1a }
type m3N3S0S3a map[string]m3N3S0S3b
type m3N3S0S3b struct{ X *m3N3S0S3c }
type m3N3S0S3c struct{ X map[string]m3N3S0S3a }
type m3N3S0S9a map[string]m3N3S0S9b
type m3N3S0S9b struct{ X *m3N3S0S9c }
type m3N3S0S9c struct{ X m3N3S0S9a }
type m3N3S0N1a map[string]m3N3S0N1b
type m3N3S0N1b struct{ X *m3N3S0N1c }
type m3N3S0N1c []m3N3S0N1a
type m3N3S0N3a map[string]m3N3S0N3b
type m3N3S0N3b struct{ X *m3N3S0N3c }
type m3N3S0N3c map[string]m3N3S0N3a
type m3N3S1S0a map[string]m3N3S1S0b
type m3N3S1S0b struct{ X []m3N3S1S0c }
type m3N3S1S0c struct{ X *m3N3S1S0a }
type m3N3S1S1a map[string]m3N3S1S1b
type m3N3S1S1b struct{ X []m3N3S1S1c }
type m3N3S1S1c struct{ X []m3N3S1S1a }
type m3N3S1S3a map[string]m3N3S1S3b
type m3N3S1S3b struct{ X []m3N3S1S3c }
type m3N3S1S3c struct{ X map[string]m3N3S1S3a }
type m3N3S1S9a map[string]m3N3S1S9b
type m3N3S1S9b struct{ X []m3N3S1S9c }
type m3N3S1S9c struct{ X m3N3S1S9a }
type m3N3S1N1a map[string]m3N3S1N1b
type m3N3S1N1b struct{ X []m3N3S1N1c }
type m3N3S1N1c []m3N3S1N1a
type m3N3S1N3a map[string]m3N3S1N3b
type m3N3S1N3b struct{ X []m3N3S1N3c }
type m3N3S1N3c map[string]m3N3S1N3a
type m3N3S3S0a map[string]m3N3S3S0b
type m3N3S3S0b struct{ X map[string]m3N3S3S0c }
type m3N3S3S0c struct{ X *m3N3S3S0a }
type m3N3S3S1a map[string]m3N3S3S1b
type m3N3S3S1b struct{ X map[string]m3N3S3S1c }
type m3N3S3S1c struct{ X []m3N3S3S1a }
type m3N3S3S3a map[string]m3N3S3S3b
type m3N3S3S3b struct{ X map[string]m3N3S3S3c }
type m3N3S3S3c struct{ X map[string]m3N3S3S3a }
type m3N3S3S9a map[string]m3N3S3S9b
type m3N3S3S9b struct{ X map[string]m3N3S3S9c }
type m3N3S3S9c struct{ X m3N3S3S9a }
type m3N3S3N1a map[string]m3N3S3N1b
type m3N3S3N1b struct{ X map[string]m3N3S3N1c }
type m3N3S3N1c []m3N3S3N1a
type m3N3S3N3a map[string]m3N3S3N3b
type m3N3S3N3b struct{ X map[string]m3N3S3N3c }
type m3N3S3N3c map[string]m3N3S3N3a
type m3N3S9S0a map[string]m3N3S9S0b
type m3N3S9S0b struct{ X m3N3S9S0c }
type m3N3S9S0c struct{ X *m3N3S9S0a }
type m3N3S9S1a map[string]m3N3S9S1b
type m3N3S9S1b struct{ X m3N3S9S1c }
type m3N3S9S1c struct{ X []m3N3S9S1a }
type m3N3S9S3a map[string]m3N3S9S3b
type m3N3S9S3b struct{ X m3N3S9S3c }
type m3N3S9S3c struct{ X map[string]m3N3S9S3a }
type m3N3S9S9a map[string]m3N3S9S9b
type m3N3S9S9b struct{ X m3N3S9S9c }
type m3N3S9S9c struct{ X m3N3S9S9a }
type m3N3S9N1a map[string]m3N3S9N1b
type m3N3S9N1b struct{ X m3N3S9N1c }
type m3N3S9N1c []m3N3S9N1a
type m3N3S9N3a map[string]m3N3S9N3b
type m3N3S9N3b struct{ X m3N3S9N3c }
type m3N3S9N3c map[string]m3N3S9N3a
type m3N3N1S0a map[string]m3N3N1S0b
type m3N3N1S0b []m3N3N1S0c
type m3N3N1S0c struct{ X *m3N3N1S0a }
type m3N3N1S1a map[string]m3N3N1S1b
type m3N3N1S1b []m3N3N1S1c
type m3N3N1S1c struct{ X []m3N3N1S1a }
type m3N3N1S3a map[string]m3N3N1S3b
type m3N3N1S3b []m3N3N1S3c
type m3N3N1S3c struct{ X map[string]m3N3N1S3a }
type m3N3N1S9a map[string]m3N3N1S9b
type m3N3N1S9b []m3N3N1S9c
type m3N3N1S9c struct{ X m3N3N1S9a }
type m3N3N1N1a map[string]m3N3N1N1b
type m3N3N1N1b []m3N3N1N1c
type m3N3N1N1c []m3N3N1N1a
type m3N3N1N3a map[string]m3N3N1N3b
type m3N3N1N3b []m3N3N1N3c
type m3N3N1N3c map[string]m3N3N1N3a
type m3N3N3S0a map[string]m3N3N3S0b
type m3N3N3S0b map[string]m3N3N3S0c
type m3N3N3S0c struct{ X *m3N3N3S0a }
type m3N3N3S1a map[string]m3N3N3S1b
type m3N3N3S1b map[string]m3N3N3S1c
type m3N3N3S1c struct{ X []m3N3N3S1a }
type m3N3N3S3a map[string]m3N3N3S3b
type m3N3N3S3b map[string]m3N3N3S3c
type m3N3N3S3c struct{ X map[string]m3N3N3S3a }
type m3N3N3S9a map[string]m3N3N3S9b
type m3N3N3S9b map[string]m3N3N3S9c
type m3N3N3S9c struct{ X m3N3N3S9a }
type m3N3N3N1a map[string]m3N3N3N1b
type m3N3N3N1b map[string]m3N3N3N1c
type m3N3N3N1c []m3N3N3N1a
type m3N3N3N3a map[string]m3N3N3N3b
type m3N3N3N3b map[string]m3N3N3N3c
type m3N3N3N3c map[string]m3N3N3N3a

// recTypes: every self-recursive type, every pair and the chosen triples.
var recTypes = []reflect.Type{
	typeOf[m1S0](),
	typeOf[m1S1](),
	typeOf[m1S2](),
	typeOf[m1S3](),
	typeOf[m1S4](),
	typeOf[m1S5](),
	typeOf[m1S6](),
	typeOf[m1S7](),
	typeOf[m1S8](),
	typeOf[m1N0](),
	typeOf[m1N1](),
	typeOf[m1N2](),
	typeOf[m1N3](),
	typeOf[m1N4](),
	typeOf[m1N5](),
	typeOf[m1N6](),
	typeOf[m1N7](),
	typeOf[m1N8](),
	typeOf[m2S0S0a](),
	typeOf[m2S0S1a](),
	typeOf[m2S0S2a](),
	typeOf[m2S0S3a](),
	typeOf[m2S0S4a](),
	typeOf[m2S0S5a](),
	typeOf[m2S0S6a](),
	typeOf[m2S0S7a](),
	typeOf[m2S0S8a](),
	typeOf[m2S0S9a](),
	typeOf[m2S0N0a](),
	typeOf[m2S0N1a](),
	typeOf[m2S0N2a](),
	typeOf[m2S0N3a](),
	typeOf[m2S0N4a](),
	typeOf[m2S0N5a](),
	typeOf[m2S0N6a](),
	typeOf[m2S0N7a](),
	typeOf[m2S0N8a](),
	typeOf[m2S1S0a](),
	typeOf[m2S1S1a](),
	typeOf[m2S1S2a](),
	typeOf[m2S1S3a](),
	typeOf[m2S1S4a](),
	typeOf[m2S1S5a](),
	typeOf[m2S1S6a](),
	typeOf[m2S1S7a](),
	typeOf[m2S1S8a](),
	typeOf[m2S1S9a](),
	typeOf[m2S1N0a](),
	typeOf[m2S1N1a](),
	typeOf[m2S1N2a](),
	typeOf[m2S1N3a](),
	typeOf[m2S1N4a](),
	typeOf[m2S1N5a](),
	typeOf[m2S1N6a](),
	typeOf[m2S1N7a](),
	typeOf[m2S1N8a](),
	typeOf[m2S2S0a](),
	typeOf[m2S2S1a](),
	typeOf[m2S2S2a](),
	typeOf[m2S2S3a](),
	typeOf[m2S2S4a](),
	typeOf[m2S2S5a](),
	typeOf[m2S2S6a](),
	typeOf[m2S2S7a](),
	typeOf[m2S2S8a](),
	typeOf[m2S2S9a](),
	typeOf[m2S2N0a](),
	typeOf[m2S2N1a](),
	typeOf[m2S2N2a](),
	typeOf[m2S2N3a](),
	typeOf[m2S2N4a](),
	typeOf[m2S2N5a](),
	typeOf[m2S2N6a](),
	typeOf[m2S2N7a](),
	typeOf[m2S2N8a](),
	typeOf[m2S3S0a](),
	typeOf[m2S3S1a](),
	typeOf[m2S3S2a](),
	typeOf[m2S3S3a](),
	typeOf[m2S3S4a](),
	typeOf[m2S3S5a](),
	typeOf[m2S3S6a](),
	typeOf[m2S3S7a](),
	typeOf[m2S3S8a](),
	typeOf[m2S3S9a](),
	typeOf[m2S3N0a](),
	typeOf[m2S3N1a](),
	typeOf[m2S3N2a](),
	typeOf[m2S3N3a](),
	typeOf[m2S3N4a](),
	typeOf[m2S3N5a](),
	typeOf[m2S3N6a](),
	typeOf[m2S3N7a](),
	typeOf[m2S3N8a](),
	typeOf[m2S4S0a](),
	typeOf[m2S4S1a](),
	typeOf[m2S4S2a](),
	typeOf[m2S4S3a](),
	typeOf[m2S4S4a](),
	typeOf[m2S4S5a](),
	typeOf[m2S4S6a](),
	typeOf[m2S4S7a](),
	typeOf[m2S4S8a](),
	typeOf[m2S4S9a](),
	typeOf[m2S4N0a](),
	typeOf[m2S4N1a](),
	typeOf[m2S4N2a](),
	typeOf[m2S4N3a](),
	typeOf[m2S4N4a](),
	typeOf[m2S4N5a](),
	typeOf[m2S4N6a](),
	typeOf[m2S4N7a](),
	typeOf[m2S4N8a](),
	typeOf[m2S5S0a](),
	typeOf[m2S5S1a](),
	typeOf[m2S5S2a](),
	typeOf[m2S5S3a](),
	typeOf[m2S5S4a](),
	typeOf[m2S5S5a](),
	typeOf[m2S5S6a](),
	typeOf[m2S5S7a](),
	typeOf[m2S5S8a](),
	typeOf[m2S5S9a](),
	typeOf[m2S5N0a](),
	typeOf[m2S5N1a](),
	typeOf[m2S5N2a](),
	typeOf[m2S5N3a](),
	typeOf[m2S5N4a](),
	typeOf[m2S5N5a](),
	typeOf[m2S5N6a](),
	typeOf[m2S5N7a](),
	typeOf[m2S5N8a](),
	typeOf[m2S6S0a](),
	typeOf[m2S6S1a](),
	typeOf[m2S6S2a](),
	typeOf[m2S6S3a](),
	typeOf[m2S6S4a](),
	typeOf[m2S6S5a](),
	typeOf[m2S6S6a](),
	typeOf[m2S6S7a](),
	typeOf[m2S6S8a](),
	typeOf[m2S6S9a](),
	typeOf[m2S6N0a](),
	typeOf[m2S6N1a](),
	typeOf[m2S6N2a](),
	typeOf[m2S6N3a](),
	typeOf[m2S6N4a](),
	typeOf[m2S6N5a](),
	typeOf[m2S6N6a](),
	typeOf[m2S6N7a](),
	typeOf[m2S6N8a](),
	typeOf[m2S7S0a](),
	typeOf[m2S7S1a](),
	typeOf[m2S7S2a](),
	typeOf[m2S7S3a](),
	typeOf[m2S7S4a](),
	typeOf[m2S7S5a](),
	typeOf[m2S7S6a](),
	typeOf[m2S7S7a](),
	typeOf[m2S7S8a](),
	typeOf[m2S7S9a](),
	typeOf[m2S7N0a](),
	typeOf[m2S7N1a](),
	typeOf[m2S7N2a](),
	typeOf[m2S7N3a](),
	typeOf[m2S7N4a](),
	typeOf[m2S7N5a](),
	typeOf[m2S7N6a](),
	typeOf[m2S7N7a](),
	typeOf[m2S7N8a](),
	typeOf[m2S8S0a](),
	typeOf[m2S8S1a](),
	typeOf[m2S8S2a](),
	typeOf[m2S8S3a](),
	typeOf[m2S8S4a](),
	typeOf[m2S8S5a](),
	typeOf[m2S8S6a](),
	typeOf[m2S8S7a](),
	typeOf[m2S8S8a](),
	typeOf[m2S8S9a](),
	typeOf[m2S8N0a](),
	typeOf[m2S8N1a](),
	typeOf[m2S8N2a](),
	typeOf[m2S8N3a](),
	typeOf[m2S8N4a](),
	typeOf[m2S8N5a](),
	typeOf[m2S8N6a](),
	typeOf[m2S8N7a](),
	typeOf[m2S8N8a](),
	typeOf[m2S9S0a](),
	typeOf[m2S9S1a](),
	typeOf[m2S9S2a](),
	typeOf[m2S9S3a](),
	typeOf[m2S9S4a](),
	typeOf[m2S9S5a](),
	typeOf[m2S9S6a](),
	typeOf[m2S9S7a](),
	typeOf[m2S9S8a](),
	typeOf[m2S9N0a](),
	typeOf[m2S9N1a](),
	typeOf[m2S9N2a](),
	typeOf[m2S9N3a](),
	typeOf[m2S9N4a](),
	typeOf[m2S9N5a](),
	typeOf[m2S9N6a](),
	typeOf[m2S9N7a](),
	typeOf[m2S9N8a](),
	typeOf[m2N0S0a](),
	typeOf[m2N0S1a](),
	typeOf[m2N0S2a](),
	typeOf[m2N0S3a](),
	typeOf[m2N0S4a](),
	typeOf[m2N0S5a](),
	typeOf[m2N0S6a](),
	typeOf[m2N0S7a](),
	typeOf[m2N0S8a](),
	typeOf[m2N0S9a](),
	typeOf[m2N0N0a](),
	typeOf[m2N0N1a](),
	typeOf[m2N0N2a](),
	typeOf[m2N0N3a](),
	typeOf[m2N0N4a](),
	typeOf[m2N0N5a](),
	typeOf[m2N0N6a](),
	typeOf[m2N0N7a](),
	typeOf[m2N0N8a](),
	typeOf[m2N1S0a](),
	typeOf[m2N1S1a](),
	typeOf[m2N1S2a](),
	typeOf[m2N1S3a](),
	typeOf[m2N1S4a](),
	typeOf[m2N1S5a](),
	typeOf[m2N1S6a](),
	typeOf[m2N1S7a](),
	typeOf[m2N1S8a](),
	typeOf[m2N1S9a](),
	typeOf[m2N1N0a](),
	typeOf[m2N1N1a](),
	typeOf[m2N1N2a](),
	typeOf[m2N1N3a](),
	typeOf[m2N1N4a](),
	typeOf[m2N1N5a](),
	typeOf[m2N1N6a](),
	typeOf[m2N1N7a](),
	typeOf[m2N1N8a](),
	typeOf[m2N2S0a](),
	typeOf[m2N2S1a](),
	typeOf[m2N2S2a](),
	typeOf[m2N2S3a](),
	typeOf[m2N2S4a](),
	typeOf[m2N2S5a](),
	typeOf[m2N2S6a](),
	typeOf[m2N2S7a](),
	typeOf[m2N2S8a](),
	typeOf[m2N2S9a](),
	typeOf[m2N2N0a](),
	typeOf[m2N2N1a](),
	typeOf[m2N2N2a](),
	typeOf[m2N2N3a](),
	typeOf[m2N2N4a](),
	typeOf[m2N2N5a](),
	typeOf[m2N2N6a](),
	typeOf[m2N2N7a](),
	typeOf[m2N2N8a](),
	typeOf[m2N3S0a](),
	typeOf[m2N3S1a](),
	typeOf[m2N3S2a](),
	typeOf[m2N3S3a](),
	typeOf[m2N3S4a](),
	typeOf[m2N3S5a](),
	typeOf[m2N3S6a](),
	typeOf[m2N3S7a](),
	typeOf[m2N3S8a](),
	typeOf[m2N3S9a](),
	typeOf[m2N3N0a](),
	typeOf[m2N3N1a](),
	typeOf[m2N3N2a](),
	typeOf[m2N3N3a](),
	typeOf[m2N3N4a](),
	typeOf[m2N3N5a](),
	typeOf[m2N3N6a](),
	typeOf[m2N3N7a](),
	typeOf[m2N3N8a](),
	typeOf[m2N4S0a](),
	typeOf[m2N4S1a](),
	typeOf[m2N4S2a](),
	typeOf[m2N4S3a](),
	typeOf[m2N4S4a](),
	typeOf[m2N4S5a](),
	typeOf[m2N4S6a](),
	typeOf[m2N4S7a](),
	typeOf[m2N4S8a](),
	typeOf[m2N4S9a](),
	typeOf[m2N4N0a](),
	typeOf[m2N4N1a](),
	typeOf[m2N4N2a](),
	typeOf[m2N4N3a](),
	typeOf[m2N4N4a](),
	typeOf[m2N4N5a](),
	typeOf[m2N4N6a](),
	typeOf[m2N4N7a](),
	typeOf[m2N4N8a](),
	typeOf[m2N5S0a](),
	typeOf[m2N5S1a](),
	typeOf[m2N5S2a](),
	typeOf[m2N5S3a](),
	typeOf[m2N5S4a](),
	typeOf[m2N5S5a](),
	typeOf[m2N5S6a](),
	typeOf[m2N5S7a](),
	typeOf[m2N5S8a](),
	typeOf[m2N5S9a](),
	typeOf[m2N5N0a](),
	typeOf[m2N5N1a](),
	typeOf[m2N5N2a](),
	typeOf[m2N5N3a](),
	typeOf[m2N5N4a](),
	typeOf[m2N5N5a](),
	typeOf[m2N5N6a](),
	typeOf[m2N5N7a](),
	typeOf[m2N5N8a](),
	typeOf[m2N6S0a](),
	typeOf[m2N6S1a](),
	typeOf[m2N6S2a](),
	typeOf[m2N6S3a](),
	typeOf[m2N6S4a](),
	typeOf[m2N6S5a](),
	typeOf[m2N6S6a](),
	typeOf[m2N6S7a](),
	typeOf[m2N6S8a](),
	typeOf[m2N6S9a](),
	typeOf[m2N6N0a](),
	typeOf[m2N6N1a](),
	typeOf[m2N6N2a](),
	typeOf[m2N6N3a](),
	typeOf[m2N6N4a](),
	typeOf[m2N6N5a](),
	typeOf[m2N6N6a](),
	typeOf[m2N6N7a](),
	typeOf[m2N6N8a](),
	typeOf[m2N7S0a](),
	typeOf[m2N7S1a](),
	typeOf[m2N7S2a](),
	typeOf[m2N7S3a](),
	typeOf[m2N7S4a](),
	typeOf[m2N7S5a](),
	typeOf[m2N7S6a](),
	typeOf[m2N7S7a](),
	typeOf[m2N7S8a](),
	typeOf[m2N7S9a](),
	typeOf[m2N7N0a](),
	typeOf[m2N7N1a](),
	typeOf[m2N7N2a](),
	typeOf[m2N7N3a](),
	typeOf[m2N7N4a](),
	typeOf[m2N7N5a](),
	typeOf[m2N7N6a](),
	typeOf[m2N7N7a](),
	typeOf[m2N7N8a](),
	typeOf[m2N8S0a](),
	typeOf[m2N8S1a](),
	typeOf[m2N8S2a](),
	typeOf[m2N8S3a](),
	typeOf[m2N8S4a](),
	typeOf[m2N8S5a](),
	typeOf[m2N8S6a](),
	typeOf[m2N8S7a](),
	typeOf[m2N8S8a](),
	typeOf[m2N8S9a](),
	typeOf[m2N8N0a](),
	typeOf[m2N8N1a](),
	typeOf[m2N8N2a](),
	typeOf[m2N8N3a](),
	typeOf[m2N8N4a](),
	typeOf[m2N8N5a](),
	typeOf[m2N8N6a](),
	typeOf[m2N8N7a](),
	typeOf[m2N8N8a](),
	typeOf[m3S0S0S0a](),
	typeOf[m3S0S0S1a](),
	typeOf[m3S0S0S3a](),
	typeOf[m3S0S0S9a](),
	typeOf[m3S0S0N1a](),
	typeOf[m3S0S0N3a](),
	typeOf[m3S0S1S0a](),
	typeOf[m3S0S1S1a](),
	typeOf[m3S0S1S3a](),
	typeOf[m3S0S1S9a](),
	typeOf[m3S0S1N1a](),
	typeOf[m3S0S1N3a](),
	typeOf[m3S0S3S0a](),
	typeOf[m3S0S3S1a](),
	typeOf[m3S0S3S3a](),
	typeOf[m3S0S3S9a](),
	typeOf[m3S0S3N1a](),
	typeOf[m3S0S3N3a](),
	typeOf[m3S0S9S0a](),
	typeOf[m3S0S9S1a](),
	typeOf[m3S0S9S3a](),
	typeOf[m3S0S9S9a](),
	typeOf[m3S0S9N1a](),
	typeOf[m3S0S9N3a](),
	typeOf[m3S0N1S0a](),
	typeOf[m3S0N1S1a](),
	typeOf[m3S0N1S3a](),
	typeOf[m3S0N1S9a](),
	typeOf[m3S0N1N1a](),
	typeOf[m3S0N1N3a](),
	typeOf[m3S0N3S0a](),
	typeOf[m3S0N3S1a](),
	typeOf[m3S0N3S3a](),
	typeOf[m3S0N3S9a](),
	typeOf[m3S0N3N1a](),
	typeOf[m3S0N3N3a](),
	typeOf[m3S1S0S0a](),
	typeOf[m3S1S0S1a](),
	typeOf[m3S1S0S3a](),
	typeOf[m3S1S0S9a](),
	typeOf[m3S1S0N1a](),
	typeOf[m3S1S0N3a](),
	typeOf[m3S1S1S0a](),
	typeOf[m3S1S1S1a](),
	typeOf[m3S1S1S3a](),
	typeOf[m3S1S1S9a](),
	typeOf[m3S1S1N1a](),
	typeOf[m3S1S1N3a](),
	typeOf[m3S1S3S0a](),
	typeOf[m3S1S3S1a](),
	typeOf[m3S1S3S3a](),
	typeOf[m3S1S3S9a](),
	typeOf[m3S1S3N1a](),
	typeOf[m3S1S3N3a](),
	typeOf[m3S1S9S0a](),
	typeOf[m3S1S9S1a](),
	typeOf[m3S1S9S3a](),
	typeOf[m3S1S9S9a](),
	typeOf[m3S1S9N1a](),
	typeOf[m3S1S9N3a](),
	typeOf[m3S1N1S0a](),
	typeOf[m3S1N1S1a](),
	typeOf[m3S1N1S3a](),
	typeOf[m3S1N1S9a](),
	typeOf[m3S1N1N1a](),
	typeOf[m3S1N1N3a](),
	typeOf[m3S1N3S0a](),
	typeOf[m3S1N3S1a](),
	typeOf[m3S1N3S3a](),
	typeOf[m3S1N3S9a](),
	typeOf[m3S1N3N1a](),
	typeOf[m3S1N3N3a](),
	typeOf[m3S3S0S0a](),
	typeOf[m3S3S0S1a](),
	typeOf[m3S3S0S3a](),
	typeOf[m3S3S0S9a](),
	typeOf[m3S3S0N1a](),
	typeOf[m3S3S0N3a](),
	typeOf[m3S3S1S0a](),
	typeOf[m3S3S1S1a](),
	typeOf[m3S3S1S3a](),
	typeOf[m3S3S1S9a](),
	typeOf[m3S3S1N1a](),
	typeOf[m3S3S1N3a](),
	typeOf[m3S3S3S0a](),
	typeOf[m3S3S3S1a](),
	typeOf[m3S3S3S3a](),
	typeOf[m3S3S3S9a](),
	typeOf[m3S3S3N1a](),
	typeOf[m3S3S3N3a](),
	typeOf[m3S3S9S0a](),
	typeOf[m3S3S9S1a](),
	typeOf[m3S3S9S3a](),
	typeOf[m3S3S9S9a](),
	typeOf[m3S3S9N1a](),
	typeOf[m3S3S9N3a](),
	typeOf[m3S3N1S0a](),
	typeOf[m3S3N1S1a](),
	typeOf[m3S3N1S3a](),
	typeOf[m3S3N1S9a](),
	typeOf[m3S3N1N1a](),
	typeOf[m3S3N1N3a](),
	typeOf[m3S3N3S0a](),
	typeOf[m3S3N3S1a](),
	typeOf[m3S3N3S3a](),
	typeOf[m3S3N3S9a](),
	typeOf[m3S3N3N1a](),
	typeOf[m3S3N3N3a](),
	typeOf[m3S9S0S0a](),
	typeOf[m3S9S0S1a](),
	typeOf[m3S9S0S3a](),
	typeOf[m3S9S0S9a](),
	typeOf[m3S9S0N1a](),
	typeOf[m3S9S0N3a](),
	typeOf[m3S9S1S0a](),
	typeOf[m3S9S1S1a](),
	typeOf[m3S9S1S3a](),
	typeOf[m3S9S1S9a](),
	typeOf[m3S9S1N1a](),
	typeOf[m3S9S1N3a](),
	typeOf[m3S9S3S0a](),
	typeOf[m3S9S3S1a](),
	typeOf[m3S9S3S3a](),
	typeOf[m3S9S3S9a](),
	typeOf[m3S9S3N1a](),
	typeOf[m3S9S3N3a](),
	typeOf[m3S9S9S0a](),
	typeOf[m3S9S9S1a](),
	typeOf[m3S9S9S3a](),
	typeOf[m3S9S9N1a](),
	typeOf[m3S9S9N3a](),
	typeOf[m3S9N1S0a](),
	typeOf[m3S9N1S1a](),
	typeOf[m3S9N1S3a](),
	typeOf[m3S9N1S9a](),
	typeOf[m3S9N1N1a](),
	typeOf[m3S9N1N3a](),
	typeOf[m3S9N3S0a](),
	typeOf[m3S9N3S1a](),
	typeOf[m3S9N3S3a](),
	typeOf[m3S9N3S9a](),
	typeOf[m3S9N3N1a](),
	typeOf[m3S9N3N3a](),
	typeOf[m3N1S0S0a](),
	typeOf[m3N1S0S1a](),
	typeOf[m3N1S0S3a](),
	typeOf[m3N1S0S9a](),
	typeOf[m3N1S0N1a](),
	typeOf[m3N1S0N3a](),
	typeOf[m3N1S1S0a](),
	typeOf[m3N1S1S1a](),
	typeOf[m3N1S1S3a](),
	typeOf[m3N1S1S9a](),
	typeOf[m3N1S1N1a](),
	typeOf[m3N1S1N3a](),
	typeOf[m3N1S3S0a](),
	typeOf[m3N1S3S1a](),
	typeOf[m3N1S3S3a](),
	typeOf[m3N1S3S9a](),
	typeOf[m3N1S3N1a](),
	typeOf[m3N1S3N3a](),
	typeOf[m3N1S9S0a](),
	typeOf[m3N1S9S1a](),
	typeOf[m3N1S9S3a](),
	typeOf[m3N1S9S9a](),
	typeOf[m3N1S9N1a](),
	typeOf[m3N1S9N3a](),
	typeOf[m3N1N1S0a](),
	typeOf[m3N1N1S1a](),
	typeOf[m3N1N1S3a](),
	typeOf[m3N1N1S9a](),
	typeOf[m3N1N1N1a](),
	typeOf[m3N1N1N3a](),
	typeOf[m3N1N3S0a](),
	typeOf[m3N1N3S1a](),
	typeOf[m3N1N3S3a](),
	typeOf[m3N1N3S9a](),
	typeOf[m3N1N3N1a](),
	typeOf[m3N1N3N3a](),
	typeOf[m3N3S0S0a](),
	typeOf[m3N3S0S1a](),
	typeOf[m3N3S0S3a](),
	typeOf[m3N3S0S9a](),
	typeOf[m3N3S0N1a](),
	typeOf[m3N3S0N3a](),
	typeOf[m3N3S1S0a](),
	typeOf[m3N3S1S1a](),
	typeOf[m3N3S1S3a](),
	typeOf[m3N3S1S9a](),
	typeOf[m3N3S1N1a](),
	typeOf[m3N3S1N3a](),
	typeOf[m3N3S3S0a](),
	typeOf[m3N3S3S1a](),
	typeOf[m3N3S3S3a](),
	typeOf[m3N3S3S9a](),
	typeOf[m3N3S3N1a](),
	typeOf[m3N3S3N3a](),
	typeOf[m3N3S9S0a](),
	typeOf[m3N3S9S1a](),
	typeOf[m3N3S9S3a](),
	typeOf[m3N3S9S9a](),
	typeOf[m3N3S9N1a](),
	typeOf[m3N3S9N3a](),
	typeOf[m3N3N1S0a](),
	typeOf[m3N3N1S1a](),
	typeOf[m3N3N1S3a](),
	typeOf[m3N3N1S9a](),
	typeOf[m3N3N1N1a](),
	typeOf[m3N3N1N3a](),
	typeOf[m3N3N3S0a](),
	typeOf[m3N3N3S1a](),
	typeOf[m3N3N3S3a](),
	typeOf[m3N3N3S9a](),
	typeOf[m3N3N3N1a](),
	typeOf[m3N3N3N3a](),
}
