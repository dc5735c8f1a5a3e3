package sim

import (
	"fmt"
	"reflect"
	"sort"
	"unsafe"
)

// Chan is the simulated state of a channel; the real channel is only its identity.
type Chan struct {
	ID     int
	keep   any
	cap    int
	buf    []item
	closed bool
	recvq  []*waiter
	sendq  []*waiter
	rvc    VC
	// OnSend observes every value accepted by the channel (harness).
	OnSend func(v any)
	// OnDrop observes a failed non-blocking send (harness).
	OnDrop  func(v any)
	OnClose func()
	// OnFull observes the code asking for the length of a channel that is full (harness).
	OnFull func()
}

type item struct {
	v  any
	vc VC
}

// waiter is a task waiting on one or several channel operations.
type waiter struct {
	t    *Task
	sel  *selState
	idx  int
	v    item // value to send, or received
	ok   bool
	send bool
}

type selState struct {
	fired bool
	idx   int
	v     item
	ok    bool
}

func chanPtr[T any](ch <-chan T) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&ch)) }

func (s *Sim) chanOf(p unsafe.Pointer, keep any, c int) *Chan {
	if p == nil {
		return nil
	}
	x := s.chans[p]
	if x == nil {
		s.chanSeq++
		x = &Chan{ID: s.chanSeq, keep: keep, cap: c}
		s.chans[p] = x
	}
	return x
}

// Reg registers a freshly made channel.
func Reg[C ~chan T, T any](ch C) C {
	if s := S; s != nil {
		s.chanOf(*(*unsafe.Pointer)(unsafe.Pointer(&ch)), ch, cap(ch))
	}
	return ch
}

// Of returns the simulated state of ch.
func Of[T any](ch <-chan T) *Chan { return S.chanOf(chanPtr(ch), ch, cap(ch)) }

// Full reports whether a non-blocking send would fail now.
func (c *Chan) Full() bool { return len(c.buf) >= c.cap && !c.hasRecv() }

// Len is the number of buffered values.
func (c *Chan) Len() int { return len(c.buf) }

// Cap is the capacity.
func (c *Chan) Cap() int { return c.cap }

func (c *Chan) hasRecv() bool {
	for _, w := range c.recvq {
		if !w.sel.fired {
			return true
		}
	}
	return false
}

func popw(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		w := (*q)[0]
		*q = (*q)[1:]
		if !w.sel.fired {
			return w
		}
	}
	return nil
}

func (s *Sim) mkitem(v any) item {
	it := item{v: v}
	if s.RaceOn && s.cur != nil {
		it.vc = s.cur.vc.Copy()
		s.cur.vc.Inc(s.cur.ID)
	}
	return it
}

func (s *Sim) fire(w *waiter, v item, ok bool) {
	w.sel.fired = true
	w.sel.idx = w.idx
	w.sel.v = v
	w.sel.ok = ok
	if s.RaceOn {
		w.t.vc.Join(v.vc)
	}
	Ready(w.t)
}

// observe calls a hook of the harness, whose accesses are nobody's.
func (s *Sim) observe(f func(any), v any) {
	if f == nil {
		return
	}
	on := s.RaceOn
	s.RaceOn = false
	f(v)
	s.RaceOn = on
}

// trySend attempts to hand v over; panics on closed channels as Go does.
func (s *Sim) trySend(c *Chan, v any) bool {
	if c.closed {
		panic("send on closed channel")
	}
	if w := popw(&c.recvq); w != nil {
		it := s.mkitem(v)
		if s.RaceOn && s.cur != nil { // unbuffered: receive happens before send completes
			s.cur.vc.Join(w.t.vc)
			w.t.vc.Inc(w.t.ID)
		}
		s.fire(w, it, true)
		s.observe(c.OnSend, v)
		return true
	}
	if len(c.buf) < c.cap {
		if s.RaceOn && s.cur != nil {
			s.cur.vc.Join(c.rvc)
		}
		c.buf = append(c.buf, s.mkitem(v))
		s.observe(c.OnSend, v)
		return true
	}
	return false
}

func (s *Sim) tryRecv(c *Chan) (it item, ok, got bool) {
	if len(c.buf) > 0 {
		it = c.buf[0]
		c.buf[0] = item{}
		c.buf = c.buf[1:]
		if s.RaceOn && s.cur != nil {
			s.cur.vc.Join(it.vc)
			c.rvc.Join(s.cur.vc)
			s.cur.vc.Inc(s.cur.ID)
		}
		if w := popw(&c.sendq); w != nil {
			c.buf = append(c.buf, w.v)
			s.observe(c.OnSend, w.v.v)
			if s.RaceOn {
				w.t.vc.Join(c.rvc)
			}
			s.fire(w, item{}, true)
		}
		return it, true, true
	}
	if w := popw(&c.sendq); w != nil {
		it = w.v
		if s.RaceOn && s.cur != nil {
			s.cur.vc.Join(it.vc)
			w.t.vc.Join(s.cur.vc)
			s.cur.vc.Inc(s.cur.ID)
		}
		s.observe(c.OnSend, w.v.v)
		s.fire(w, item{}, true)
		return it, true, true
	}
	if c.closed {
		if s.RaceOn && s.cur != nil {
			s.cur.vc.Join(c.rvc)
		}
		return item{}, false, true
	}
	return item{}, false, false
}

func (s *Sim) send(c *Chan, v any) {
	SyncPoint()
	if s.dead {
		panic(kill)
	}
	if c == nil {
		Block("send on nil channel")
		return
	}
	if s.trySend(c, v) {
		return
	}
	w := &waiter{t: s.cur, sel: &selState{}, send: true, v: s.mkitem(v)}
	c.sendq = append(c.sendq, w)
	Block(fmt.Sprintf("send on channel %d", c.ID))
	if !w.sel.ok {
		panic("send on closed channel")
	}
}

func (s *Sim) recv(c *Chan) (item, bool) {
	SyncPoint()
	if s.dead {
		panic(kill)
	}
	if c == nil {
		Block("receive on nil channel")
		return item{}, false
	}
	if it, ok, got := s.tryRecv(c); got {
		return it, ok
	}
	w := &waiter{t: s.cur, sel: &selState{}}
	c.recvq = append(c.recvq, w)
	Block(fmt.Sprintf("receive on channel %d", c.ID))
	return w.sel.v, w.sel.ok
}

// Sender is the left half of a send statement.
type Sender[T any] struct{ ch chan<- T }

// SendTo evaluates the channel operand of a send.
func SendTo[T any](ch chan<- T) Sender[T] { return Sender[T]{ch} }

// Do sends.
func (x Sender[T]) Do(v T) {
	s := S
	if s == nil {
		return
	}
	s.send(s.chanOf(*(*unsafe.Pointer)(unsafe.Pointer(&x.ch)), x.ch, cap(x.ch)), v)
}

// Push is a non-blocking send from scheduler context (timers).
func Push[T any](ch chan T, v T) bool {
	s := S
	if s == nil || s.dead {
		return false
	}
	return s.trySend(s.chanOf(*(*unsafe.Pointer)(unsafe.Pointer(&ch)), ch, cap(ch)), v)
}

func conv[T any](v any) T {
	if v == nil {
		var z T
		return z
	}
	return v.(T)
}

// Recv receives one value.
func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

// Recv2 receives with the ok flag.
func Recv2[T any](ch <-chan T) (T, bool) {
	var z T
	s := S
	if s == nil {
		return z, false
	}
	it, ok := s.recv(s.chanOf(chanPtr(ch), ch, cap(ch)))
	if !ok {
		return z, false
	}
	return conv[T](it.v), true
}

// RangeRecv starts a range over a channel.
func RangeRecv[T any](ch <-chan T) (<-chan T, T, bool) {
	v, ok := Recv2(ch)
	return ch, v, ok
}

// CloseCh closes a channel.
func CloseCh[T any](ch chan<- T) {
	s := S
	if s == nil {
		return
	}
	SyncPoint()
	c := s.chanOf(*(*unsafe.Pointer)(unsafe.Pointer(&ch)), ch, cap(ch))
	if s.dead {
		return
	}
	if c == nil {
		panic("close of nil channel")
	}
	if c.closed {
		panic("close of closed channel")
	}
	c.closed = true
	if c.OnClose != nil {
		c.OnClose()
	}
	it := s.mkitem(nil)
	if s.RaceOn {
		c.rvc.Join(it.vc)
	}
	for w := popw(&c.recvq); w != nil; w = popw(&c.recvq) {
		s.fire(w, it, false)
	}
	for w := popw(&c.sendq); w != nil; w = popw(&c.sendq) {
		s.fire(w, item{}, false)
	}
}

func (c *Chan) length() int {
	if c.OnFull != nil && c.Full() {
		c.OnFull()
	}
	return len(c.buf)
}

// LenCh is len(ch).
func LenCh[T any](ch <-chan T) int {
	if S == nil || ch == nil {
		return 0
	}
	SyncPoint()
	return Of(ch).length()
}

// LenChS is len(ch) of a send-only channel.
func LenChS[T any](ch chan<- T) int {
	if S == nil || ch == nil {
		return 0
	}
	SyncPoint()
	return S.chanOf(*(*unsafe.Pointer)(unsafe.Pointer(&ch)), ch, cap(ch)).length()
}

// Case is one case of a select statement.
type Case interface {
	chanState(*Sim) *Chan
	isSend() (any, bool)
	set(v any, ok bool)
}

// SendCase is a send case.
type SendCase[T any] struct {
	ch chan<- T
	v  T
}

// OnSendCase evaluates the channel operand of a send case.
func OnSendCase[T any](ch chan<- T) *SendCase[T] { return &SendCase[T]{ch: ch} }

// V evaluates the value operand.
func (c *SendCase[T]) V(v T) *SendCase[T] { c.v = v; return c }

func (c *SendCase[T]) chanState(s *Sim) *Chan {
	return s.chanOf(*(*unsafe.Pointer)(unsafe.Pointer(&c.ch)), c.ch, cap(c.ch))
}
func (c *SendCase[T]) isSend() (any, bool) { return c.v, true }
func (c *SendCase[T]) set(any, bool)       {}

// RecvCase is a receive case.
type RecvCase[T any] struct {
	ch  <-chan T
	Val T
	Ok  bool
}

// OnRecvCase makes a receive case.
func OnRecvCase[T any](ch <-chan T) *RecvCase[T] { return &RecvCase[T]{ch: ch} }

func (c *RecvCase[T]) chanState(s *Sim) *Chan { return s.chanOf(chanPtr(c.ch), c.ch, cap(c.ch)) }
func (c *RecvCase[T]) isSend() (any, bool)    { return nil, false }
func (c *RecvCase[T]) set(v any, ok bool) {
	c.Ok = ok
	if ok {
		c.Val = conv[T](v)
	}
}

// Get returns the received value.
func (c *RecvCase[T]) Get() (T, bool) { return c.Val, c.Ok }

// Select performs a select; it returns the index of the chosen case, or -1 for default.
func Select(hasDefault bool, cases ...Case) int {
	s := S
	if s == nil {
		return -1
	}
	SyncPoint()
	if s.dead {
		panic(kill)
	}
	n := len(cases)
	order := make([]int, n)
	for i := range order {
		order[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := i - Choose(i+1)
		order[i], order[j] = order[j], order[i]
	}
	for _, i := range order {
		c := cases[i].chanState(s)
		if c == nil {
			continue
		}
		if v, snd := cases[i].isSend(); snd {
			if s.trySend(c, v) {
				return i
			}
		} else if it, ok, got := s.tryRecv(c); got {
			cases[i].set(it.v, ok)
			return i
		}
	}
	if hasDefault {
		for _, i := range order {
			if c := cases[i].chanState(s); c != nil && c.OnDrop != nil {
				if v, snd := cases[i].isSend(); snd {
					c.OnDrop(v)
				}
			}
		}
		return -1
	}
	st := &selState{}
	why := "select"
	for i := range cases {
		c := cases[i].chanState(s)
		if c == nil {
			continue
		}
		v, snd := cases[i].isSend()
		if snd {
			why += " send to"
		}
		why += fmt.Sprintf(" ch%d", c.ID)
		w := &waiter{t: s.cur, sel: st, idx: i, send: snd}
		if snd {
			w.v = s.mkitem(v)
			c.sendq = append(c.sendq, w)
		} else {
			c.recvq = append(c.recvq, w)
		}
	}
	Block(why)
	if _, snd := cases[st.idx].isSend(); snd {
		if !st.ok {
			panic("send on closed channel")
		}
	} else {
		cases[st.idx].set(st.v.v, st.ok)
	}
	return st.idx
}

// MapIter iterates a map in an order decided by the simulator.
type MapIter[K comparable, V any] struct {
	m    map[K]V
	keys []K
	i    int
}

// Keys returns the keys of m in simulated order.
func Keys[M ~map[K]V, K comparable, V any](m M) []K {
	keys := make([]K, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	sortKeys(keys)
	if S != nil && len(keys) > 1 {
		for i := len(keys) - 1; i > 0; i-- {
			j := i - Choose(i+1)
			keys[i], keys[j] = keys[j], keys[i]
		}
	}
	return keys
}

// Iter starts an iteration over m.
func Iter[M ~map[K]V, K comparable, V any](m M) *MapIter[K, V] {
	return &MapIter[K, V]{m: m, keys: Keys(m)}
}

// IterKV starts an iteration and provides the loop variables.
func IterKV[M ~map[K]V, K comparable, V any](m M) (it *MapIter[K, V], k K, v V) {
	return Iter(m), k, v
}

// IterK starts a key iteration.
func IterK[M ~map[K]V, K comparable, V any](m M) (it *MapIter[K, V], k K) { return Iter(m), k }

// IterV starts a value iteration.
func IterV[M ~map[K]V, K comparable, V any](m M) (it *MapIter[K, V], v V) { return Iter(m), v }

// Next advances; kp and vp may be nil.
func (it *MapIter[K, V]) Next(kp *K, vp *V) bool {
	for it.i < len(it.keys) {
		k := it.keys[it.i]
		it.i++
		v, ok := it.m[k]
		if !ok {
			continue // deleted during the iteration
		}
		if kp != nil {
			*kp = k
		}
		if vp != nil {
			*vp = v
		}
		return true
	}
	return false
}

func sortKeys[K comparable](keys []K) {
	if len(keys) < 2 {
		return
	}
	rank := make([]string, len(keys))
	for i, k := range keys {
		rank[i] = keyRank(reflect.ValueOf(&k).Elem())
	}
	idx := make([]int, len(keys))
	for i := range idx {
		idx[i] = i
	}
	sort.Slice(idx, func(a, b int) bool { return rank[idx[a]] < rank[idx[b]] })
	out := make([]K, len(keys))
	for i, j := range idx {
		out[i] = keys[j]
	}
	copy(keys, out)
}

func keyRank(v reflect.Value) string {
	switch v.Kind() {
	case reflect.String:
		return "s" + v.String()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return fmt.Sprintf("i%020d", uint64(v.Int())+1<<63)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return fmt.Sprintf("u%020d", v.Uint())
	case reflect.Bool:
		return fmt.Sprint(v.Bool())
	case reflect.Chan:
		if v.IsNil() {
			return "c"
		}
		p := v.UnsafePointer()
		if S == nil {
			return "c?"
		}
		return fmt.Sprintf("c%08d", S.chanOf(p, v.Interface(), v.Cap()).ID)
	case reflect.Struct:
		r := ""
		for i := 0; i < v.NumField(); i++ {
			r += keyRank(v.Field(i)) + "|"
		}
		return r
	case reflect.Array:
		r := ""
		for i := 0; i < v.Len(); i++ {
			r += keyRank(v.Index(i)) + "|"
		}
		return r
	case reflect.Interface:
		if v.IsNil() {
			return ""
		}
		return v.Elem().Type().String() + keyRank(v.Elem())
	case reflect.Pointer:
		if v.IsNil() {
			return "p"
		}
		if S == nil {
			return "p?"
		}
		return fmt.Sprintf("p%08d", S.PtrID(v.UnsafePointer(), v.Interface()))
	}
	panic("sim: map key of kind " + v.Kind().String() + " has no deterministic order")
}

type ptrID struct {
	id   int
	keep any
}

// PtrID gives a stable number to a pointer used as a map key. Registration order is
// deterministic when keys are inserted one at a time (MapSet registers them).
func (s *Sim) PtrID(p unsafe.Pointer, keep any) int {
	m, _ := s.Locals["ptrid"].(map[unsafe.Pointer]ptrID)
	if m == nil {
		m = map[unsafe.Pointer]ptrID{}
		s.Locals["ptrid"] = m
	}
	x, ok := m[p]
	if !ok {
		x = ptrID{len(m) + 1, keep}
		m[p] = x
	}
	return x.id
}

// Key registers a pointer-like map key at insertion.
func Key[K any](k K) K {
	if S != nil {
		v := reflect.ValueOf(&k).Elem()
		switch v.Kind() {
		case reflect.Pointer:
			if !v.IsNil() {
				S.PtrID(v.UnsafePointer(), v.Interface())
			}
		case reflect.Chan:
			if !v.IsNil() {
				S.chanOf(v.UnsafePointer(), v.Interface(), v.Cap())
			}
		}
	}
	return k
}

// RegS registers a send-only channel made by the code under test.
func RegS[T any](ch chan<- T) chan<- T {
	if s := S; s != nil {
		s.chanOf(*(*unsafe.Pointer)(unsafe.Pointer(&ch)), ch, cap(ch))
	}
	return ch
}

// RegR registers a receive-only channel.
func RegR[T any](ch <-chan T) <-chan T {
	if s := S; s != nil {
		s.chanOf(*(*unsafe.Pointer)(unsafe.Pointer(&ch)), ch, cap(ch))
	}
	return ch
}

// Zero resets a package variable.
func Zero[T any](p *T) {
	var z T
	*p = z
}
