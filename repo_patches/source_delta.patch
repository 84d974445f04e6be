From 85af3da451f7f8406baeb8450b40cd0d68f74aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:04 +0000
Subject: [PATCH 01/31] fix: stream lookup keeps head and tail on removal and
 locks in Get

Removing the first (or only) stream left it reachable, and Get walked the
list without holding the lock.
---
 proxy/lookup.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/proxy/lookup.go b/proxy/lookup.go
index b5e4791..3a3d686 100644
--- a/proxy/lookup.go
+++ b/proxy/lookup.go
@@ -33,6 +33,9 @@ func (l *Lookup) IsEmpty() bool {
 }
 
 func (l *Lookup) Get(id uint32) (Stream, bool) {
+	l.mu.Lock()
+	defer l.mu.Unlock()
+
 	if n := l.find(id); n != nil {
 		return n.stream, true
 	}
@@ -77,9 +80,13 @@ func (l *Lookup) Remove(id uint32) {
 
 	if prevNode != nil {
 		prevNode.next = nodeToDelete.next
+	} else {
+		l.head = nextNode
 	}
 	if nextNode != nil {
 		nextNode.prev = nodeToDelete.prev
+	} else {
+		l.tail = prevNode
 	}
 }
 
-- 
2.43.0


From 136ba88478967be7b9873f41dab3998874b52290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:40 +0000
Subject: [PATCH 02/31] fix: flux: decide the end once, conserve demand, return
 the outcome from Block

---
 rx/flux/flux.go             | 235 ++++++++++++++++++++++++++++--------
 rx/flux/flux_host.go        |  25 +++-
 rx/flux/flux_webassembly.go |   4 +-
 rx/flux/processor.go        |  43 +++++--
 rx/flux/response.go         |  12 +-
 5 files changed, 243 insertions(+), 76 deletions(-)

diff --git a/rx/flux/flux.go b/rx/flux/flux.go
index 864f7e5..faf9680 100644
--- a/rx/flux/flux.go
+++ b/rx/flux/flux.go
@@ -1,6 +1,8 @@
 package flux
 
 import (
+	"sync"
+
 	"github.com/nanobus/iota/go/rx"
 )
 
@@ -47,6 +49,9 @@ func (e errorFlow[T]) Subscribe(sub Subscribe[T]) Flux[T] {
 	if sub.OnError != nil {
 		sub.OnError(e.err)
 	}
+	if sub.Finally != nil {
+		sub.Finally(rx.SignalError)
+	}
 	return e
 }
 
@@ -56,7 +61,8 @@ func (e errorFlow[T]) Notify(fn rx.FnFinally) {
 	fn(rx.SignalError)
 }
 
-func (e errorFlow[T]) Block(_ Subscribe[T]) error {
+func (e errorFlow[T]) Block(sub Subscribe[T]) error {
+	e.Subscribe(sub)
 	return e.err
 }
 
@@ -71,8 +77,11 @@ func Create[T any](source Source[T]) Flux[T] {
 }
 
 type flux[T any] struct {
-	source     Source[T]
+	source Source[T]
+
+	mu         sync.Mutex
 	subscriber *subscriber[T]
+	ended      bool // the listeners have been told how the subscription ended
 	callbacks  []rx.FnFinally
 }
 
@@ -86,24 +95,36 @@ func (f *flux[T]) Subscribe(sub Subscribe[T]) Flux[T] {
 		f:            f,
 		noRequest:    sub.NoRequest,
 	}
+	f.mu.Lock()
 	f.subscriber = &s
+	f.ended = false
+	f.mu.Unlock()
 	f.source(&s)
 	s.handleOnSubscribe()
 	return f
 }
 
 func (f *flux[T]) Subscription() rx.Subscription {
+	f.mu.Lock()
+	defer f.mu.Unlock()
+	if f.subscriber == nil {
+		return nil
+	}
 	return f.subscriber
 }
 
 func (f *flux[T]) Async() {}
 
 func (f *flux[T]) Notify(fn rx.FnFinally) {
-	if f.subscriber != nil && f.subscriber.closed {
-		fn(f.subscriber.signal)
+	f.mu.Lock()
+	if f.ended {
+		signal := f.subscriber.signal
+		f.mu.Unlock()
+		fn(signal)
 		return
 	}
 	f.callbacks = append(f.callbacks, fn)
+	f.mu.Unlock()
 }
 
 type subscriber[T any] struct {
@@ -114,6 +135,7 @@ type subscriber[T any] struct {
 	signal    rx.SignalType
 	f         *flux[T]
 	noRequest bool
+	asked     bool // asked for more since the last request
 
 	doOnNext     rx.FnOnNext[T]
 	doOnComplete rx.FnOnComplete
@@ -121,28 +143,64 @@ type subscriber[T any] struct {
 	doOnRequest  rx.FnOnSubscribe
 	doFinally    rx.FnFinally
 
-	mu mutex
+	mu mutex // serializes demand; the state above is guarded by f.mu
 }
 
-func (s *subscriber[T]) Next(value T) {
+func (s *subscriber[T]) isClosed() bool {
+	s.f.mu.Lock()
+	defer s.f.mu.Unlock()
+	return s.closed
+}
+
+// end closes the subscription. Only the first call returns true.
+func (s *subscriber[T]) end(signal rx.SignalType, err error) bool {
+	s.f.mu.Lock()
+	defer s.f.mu.Unlock()
 	if s.closed {
-		return
+		return false
 	}
+	s.closed = true
+	s.signal = signal
+	s.err = err
+	return true
+}
+
+// consume takes one value off the outstanding demand.
+func (s *subscriber[T]) consume() {
+	s.f.mu.Lock()
+	defer s.f.mu.Unlock()
 	s.n--
+}
+
+// exhausted returns true once when all that was requested has arrived.
+func (s *subscriber[T]) exhausted() bool {
+	s.f.mu.Lock()
+	defer s.f.mu.Unlock()
+	if s.n != 0 || s.asked {
+		return false
+	}
+	s.asked = true
+	return true
+}
+
+func (s *subscriber[T]) Next(value T) {
+	if s.isClosed() {
+		return
+	}
+	s.consume()
 	if s.doOnNext != nil {
 		s.doOnNext(value)
 	}
 
-	if s.n == 0 {
+	if s.exhausted() {
 		s.handleOnSubscribe()
 	}
 }
 
 func (s *subscriber[T]) Complete() {
-	if s.closed {
+	if !s.end(rx.SignalComplete, nil) {
 		return
 	}
-	s.closed = true
 	if s.doOnComplete != nil {
 		s.doOnComplete()
 	}
@@ -150,11 +208,9 @@ func (s *subscriber[T]) Complete() {
 }
 
 func (s *subscriber[T]) Error(err error) {
-	if s.closed {
+	if !s.end(rx.SignalError, err) {
 		return
 	}
-	s.err = err
-	s.closed = true
 	if s.doOnError != nil {
 		s.doOnError(err)
 	}
@@ -162,27 +218,35 @@ func (s *subscriber[T]) Error(err error) {
 }
 
 func (s *subscriber[T]) finally(signal rx.SignalType) {
-	s.signal = signal
 	if s.doFinally != nil {
 		s.doFinally(signal)
 	}
-	for _, fn := range s.f.callbacks {
+	s.f.mu.Lock()
+	s.f.ended = true
+	callbacks := s.f.callbacks
+	s.f.callbacks = nil
+	s.f.mu.Unlock()
+	for _, fn := range callbacks {
 		fn(signal)
 	}
 }
 
 func (s *subscriber[T]) OnSubscribe(sub OnSubscribe) {
+	s.f.mu.Lock()
 	if s.closed {
+		s.f.mu.Unlock()
 		return
 	}
 	s.sub = sub
-	if s.n > 0 {
-		s.doRequest(s.n)
+	n := s.n
+	s.f.mu.Unlock()
+	if n > 0 && sub.Request != nil {
+		s.doRequest(sub.Request, n)
 	}
 }
 
 func (s *subscriber[T]) handleOnSubscribe() {
-	if s.noRequest {
+	if s.noRequest || s.isClosed() {
 		return
 	}
 	if s.doOnRequest != nil {
@@ -193,28 +257,39 @@ func (s *subscriber[T]) handleOnSubscribe() {
 }
 
 func (s *subscriber[T]) Request(n int) {
+	s.f.mu.Lock()
+	if s.closed {
+		s.f.mu.Unlock()
+		return
+	}
 	s.n += n
-	if s.sub.Request != nil {
-		s.doRequest(n)
+	s.asked = false
+	request := s.sub.Request
+	s.f.mu.Unlock()
+	if request != nil {
+		s.doRequest(request, n)
 	}
 }
 
 func (s *subscriber[T]) Cancel() {
-	s.closed = true
-	if s.sub.Cancel != nil {
-		s.sub.Cancel()
+	if !s.end(rx.SignalCancel, nil) {
+		return
 	}
-	if s.doFinally != nil {
-		s.doFinally(rx.SignalCancel)
+	s.f.mu.Lock()
+	cancel := s.sub.Cancel
+	s.f.mu.Unlock()
+	if cancel != nil {
+		cancel()
 	}
+	s.finally(rx.SignalCancel)
 }
 
 func (s *subscriber[T]) Close() {
-	s.closed = true
+	s.end(rx.SignalCancel, nil)
 }
 
 func Map[S, D any](f Flux[S], tx rx.Transform[S, D]) Flux[D] {
-	return mapper[S, D]{
+	return &mapper[S, D]{
 		f:  f,
 		tx: tx,
 	}
@@ -223,46 +298,108 @@ func Map[S, D any](f Flux[S], tx rx.Transform[S, D]) Flux[D] {
 type mapper[S, D any] struct {
 	f  Flux[S]
 	tx rx.Transform[S, D]
-}
 
-type closable[T any] interface {
-	Close()
+	mu      sync.Mutex
+	decided bool // it is known how the subscription ends
+	failed  bool // it ends because the transformation failed
+	ended   bool // the subscriber has been told
+	err     error
 }
 
-func (m mapper[S, D]) Subscribe(sub Subscribe[D]) Flux[D] {
+// decide settles how the subscription ends. Only the first call returns true.
+func (m *mapper[S, D]) decide(err error, failed bool) bool {
+	m.mu.Lock()
+	defer m.mu.Unlock()
+	if m.decided {
+		return false
+	}
+	m.decided, m.err, m.failed = true, err, failed
+	return true
+}
+
+func (m *mapper[S, D]) hasFailed() bool {
+	m.mu.Lock()
+	defer m.mu.Unlock()
+	return m.failed
+}
+
+func (m *mapper[S, D]) Subscribe(sub Subscribe[D]) Flux[D] {
+	m.mu.Lock()
+	m.decided, m.failed, m.ended, m.err = false, false, false, nil
+	m.mu.Unlock()
+
+	// end tells the subscriber about the end once.
+	end := func(signal rx.SignalType) {
+		m.mu.Lock()
+		if m.ended {
+			m.mu.Unlock()
+			return
+		}
+		m.ended = true
+		failed, err := m.failed, m.err
+		m.mu.Unlock()
+		if failed {
+			signal = rx.SignalError
+			if sub.OnError != nil {
+				sub.OnError(err)
+			}
+		}
+		if sub.Finally != nil {
+			sub.Finally(signal)
+		}
+	}
+
 	m.f.Subscribe(Subscribe[S]{
 		OnNext: func(value S) {
-			if converted, err := m.tx(value); err != nil {
-				if close, ok := m.f.(closable[S]); ok {
-					close.Close()
-				}
-				if sub.OnError != nil {
-					sub.OnError(err)
-				}
-				if sub.Finally != nil {
-					sub.Finally(rx.SignalError)
+			if m.hasFailed() {
+				return
+			}
+			converted, err := m.tx(value)
+			if err != nil {
+				if m.decide(err, true) {
+					// Stop the source.
+					if s := m.f.Subscription(); s != nil {
+						s.Cancel()
+					}
+					end(rx.SignalError)
 				}
 			} else if sub.OnNext != nil {
 				sub.OnNext(converted)
 			}
 		},
-		OnComplete: sub.OnComplete,
-		OnError:    sub.OnError,
-		OnRequest:  sub.OnRequest,
-		Finally:    sub.Finally,
-		NoRequest:  sub.NoRequest,
+		OnComplete: func() {
+			if m.decide(nil, false) && sub.OnComplete != nil {
+				sub.OnComplete()
+			}
+		},
+		OnError: func(err error) {
+			if m.decide(err, false) && sub.OnError != nil {
+				sub.OnError(err)
+			}
+		},
+		OnRequest: sub.OnRequest,
+		Finally: func(signal rx.SignalType) {
+			m.decide(nil, false)
+			end(signal)
+		},
+		NoRequest: sub.NoRequest,
 	})
 	return m
 }
 
-func (m mapper[S, D]) Async() {
+func (m *mapper[S, D]) Async() {
 	m.f.Async()
 }
 
-func (m mapper[S, D]) Notify(fn rx.FnFinally) {
-	m.f.Notify(fn)
+func (m *mapper[S, D]) Notify(fn rx.FnFinally) {
+	m.f.Notify(func(signal rx.SignalType) {
+		if m.hasFailed() {
+			signal = rx.SignalError
+		}
+		fn(signal)
+	})
 }
 
-func (m mapper[S, D]) Subscription() rx.Subscription {
+func (m *mapper[S, D]) Subscription() rx.Subscription {
 	return m.f.Subscription()
 }
diff --git a/rx/flux/flux_host.go b/rx/flux/flux_host.go
index bdf98f5..ed7c88a 100644
--- a/rx/flux/flux_host.go
+++ b/rx/flux/flux_host.go
@@ -17,23 +17,36 @@ type mutex struct {
 	sync.Mutex
 }
 
-func (s *subscriber[T]) doRequest(n int) {
-	go func(n int) {
+func (s *subscriber[T]) doRequest(request func(int), n int) {
+	go func() {
 		s.mu.Lock()
 		defer s.mu.Unlock()
-		s.sub.Request(n)
-	}(n)
+		if s.isClosed() {
+			return
+		}
+		request(n)
+	}()
 }
 
 func (f *flux[T]) Block(sub Subscribe[T]) (err error) {
-	if f.subscriber.closed {
+	f.mu.Lock()
+	if f.subscriber != nil && f.subscriber.closed {
+		defer f.mu.Unlock()
 		return f.subscriber.err
 	}
+	f.mu.Unlock()
 
 	return Block(Flux[T](f), sub)
 }
 
-func (b mapper[S, D]) Block(sub Subscribe[D]) (err error) {
+func (b *mapper[S, D]) Block(sub Subscribe[D]) (err error) {
+	b.mu.Lock()
+	if b.ended {
+		defer b.mu.Unlock()
+		return b.err
+	}
+	b.mu.Unlock()
+
 	return Block(Flux[D](b), sub)
 }
 
diff --git a/rx/flux/flux_webassembly.go b/rx/flux/flux_webassembly.go
index 08ca2f7..78320e5 100644
--- a/rx/flux/flux_webassembly.go
+++ b/rx/flux/flux_webassembly.go
@@ -8,6 +8,6 @@ type Blockable[T any] interface {
 
 type mutex struct{}
 
-func (s *subscriber[T]) doRequest(n int) {
-	s.sub.Request(n)
+func (s *subscriber[T]) doRequest(request func(int), n int) {
+	request(n)
 }
diff --git a/rx/flux/processor.go b/rx/flux/processor.go
index 10770a6..c2d0b29 100644
--- a/rx/flux/processor.go
+++ b/rx/flux/processor.go
@@ -1,5 +1,9 @@
 package flux
 
+import (
+	"sync"
+)
+
 type Processor[T any] interface {
 	Flux[T]
 	Sink[T]
@@ -7,6 +11,8 @@ type Processor[T any] interface {
 
 type processor[T any] struct {
 	Flux[T]
+
+	mu   sync.Mutex
 	sink Sink[T]
 	sub  *OnSubscribe
 }
@@ -14,38 +20,51 @@ type processor[T any] struct {
 func NewProcessor[T any]() Processor[T] {
 	p := &processor[T]{}
 	p.Flux = Create(func(sink Sink[T]) {
+		p.mu.Lock()
 		p.sink = sink
-		if p.sub != nil {
-			sink.OnSubscribe(*p.sub)
-			p.sub = nil
+		sub := p.sub
+		p.sub = nil
+		p.mu.Unlock()
+		if sub != nil {
+			sink.OnSubscribe(*sub)
 		}
 	})
 
 	return p
 }
 
+func (p *processor[T]) target() Sink[T] {
+	p.mu.Lock()
+	defer p.mu.Unlock()
+	return p.sink
+}
+
 func (p *processor[T]) Next(value T) {
-	if p.sink != nil {
-		p.sink.Next(value)
+	if sink := p.target(); sink != nil {
+		sink.Next(value)
 	}
 }
 
 func (p *processor[T]) Complete() {
-	if p.sink != nil {
-		p.sink.Complete()
+	if sink := p.target(); sink != nil {
+		sink.Complete()
 	}
 }
 
 func (p *processor[T]) Error(err error) {
-	if p.sink != nil {
-		p.sink.Error(err)
+	if sink := p.target(); sink != nil {
+		sink.Error(err)
 	}
 }
 
 func (p *processor[T]) OnSubscribe(sub OnSubscribe) {
-	if p.sink != nil {
-		p.sink.OnSubscribe(sub)
-	} else {
+	p.mu.Lock()
+	sink := p.sink
+	if sink == nil {
 		p.sub = &sub
 	}
+	p.mu.Unlock()
+	if sink != nil {
+		sink.OnSubscribe(sub)
+	}
 }
diff --git a/rx/flux/response.go b/rx/flux/response.go
index 739f81f..7bd123a 100644
--- a/rx/flux/response.go
+++ b/rx/flux/response.go
@@ -2,14 +2,12 @@ package flux
 
 func SliceResponse[T any](sink Sink[T], slice []T) func(n int) {
 	return func(n int) {
-		num := len(slice)
-		if n < num {
-			num = n
+		// The subscriber may request more from inside Next.
+		for ; n > 0 && len(slice) != 0; n-- {
+			next := slice[0]
+			slice = slice[1:]
+			sink.Next(next)
 		}
-		for i := 0; i < num; i++ {
-			sink.Next(slice[i])
-		}
-		slice = slice[num:]
 		if len(slice) == 0 {
 			sink.Complete()
 		}
-- 
2.43.0


From 2f9df2a22d52d4a3fee62f601c36342c6983273c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:40 +0000
Subject: [PATCH 03/31] fix: mono: decide the end once, tell listeners the real
 outcome, Block always returns

---
 rx/mono/mono.go      | 128 +++++++++++++++++++++++++++++++++++--------
 rx/mono/mono_host.go |  48 ++++++++--------
 rx/mono/processor.go |  37 +++++++++----
 3 files changed, 157 insertions(+), 56 deletions(-)

diff --git a/rx/mono/mono.go b/rx/mono/mono.go
index 002c985..be6dc79 100644
--- a/rx/mono/mono.go
+++ b/rx/mono/mono.go
@@ -1,6 +1,8 @@
 package mono
 
 import (
+	"sync"
+
 	"github.com/nanobus/iota/go/rx"
 )
 
@@ -42,6 +44,9 @@ func (e errorSingle[T]) Subscribe(sub Subscribe[T]) Mono[T] {
 	if sub.OnError != nil {
 		sub.OnError(e.err)
 	}
+	if sub.Finally != nil {
+		sub.Finally(rx.SignalError)
+	}
 	return e
 }
 
@@ -74,6 +79,9 @@ func (j justSingle[T]) Subscribe(sub Subscribe[T]) Mono[T] {
 	if sub.OnSuccess != nil {
 		sub.OnSuccess(j.value)
 	}
+	if sub.Finally != nil {
+		sub.Finally(rx.SignalComplete)
+	}
 	return j
 }
 
@@ -99,8 +107,11 @@ func Create[T any](source Source[T]) Mono[T] {
 }
 
 type mono[T any] struct {
-	source     Source[T]
+	source Source[T]
+
+	mu         sync.Mutex
 	subscriber *subscriber[T]
+	ended      bool // the listeners have been told how the subscription ended
 	callbacks  []rx.FnFinally
 }
 
@@ -112,7 +123,10 @@ func (m *mono[T]) Subscribe(sub Subscribe[T]) Mono[T] {
 		doOnSubscribe: sub.OnRequest,
 		doFinally:     sub.Finally,
 	}
+	m.mu.Lock()
 	m.subscriber = &wrapper
+	m.ended = false
+	m.mu.Unlock()
 	m.source(&wrapper)
 	return m
 }
@@ -121,24 +135,32 @@ func (m *mono[T]) Async() {
 }
 
 func (m *mono[T]) Notify(fn rx.FnFinally) {
-	// if m.subscriber == nil {
-	// 	wrapper := subscriber[T]{}
-	// 	m.subscriber = &wrapper
-	// 	m.source(&wrapper)
-	// }
-	if m.subscriber != nil && m.subscriber.closed {
-		fn(m.subscriber.signal)
+	m.mu.Lock()
+	if m.ended {
+		signal := m.subscriber.signal
+		m.mu.Unlock()
+		fn(signal)
 		return
 	}
-
 	m.callbacks = append(m.callbacks, fn)
+	m.mu.Unlock()
 }
 
 func (m *mono[T]) Get() (ret T, err error) {
-	if !m.subscriber.closed {
+	ret, err, closed := m.result()
+	if !closed {
 		panic("mono: Get called before completion")
 	}
-	return m.subscriber.value, m.subscriber.err
+	return ret, err
+}
+
+func (m *mono[T]) result() (ret T, err error, closed bool) {
+	m.mu.Lock()
+	defer m.mu.Unlock()
+	if m.subscriber == nil || !m.subscriber.closed {
+		return ret, nil, false
+	}
+	return m.subscriber.value, m.subscriber.err, true
 }
 
 type subscriber[T any] struct {
@@ -154,12 +176,24 @@ type subscriber[T any] struct {
 	doFinally     rx.FnFinally
 }
 
-func (s *subscriber[T]) Success(value T) {
+// end closes the subscription. Only the first call returns true.
+func (s *subscriber[T]) end(signal rx.SignalType, value T, err error) bool {
+	s.m.mu.Lock()
+	defer s.m.mu.Unlock()
 	if s.closed {
-		return
+		return false
 	}
-	s.value = value
 	s.closed = true
+	s.signal = signal
+	s.value = value
+	s.err = err
+	return true
+}
+
+func (s *subscriber[T]) Success(value T) {
+	if !s.end(rx.SignalComplete, value, nil) {
+		return
+	}
 	if s.doOnSuccess != nil {
 		s.doOnSuccess(value)
 	}
@@ -167,11 +201,10 @@ func (s *subscriber[T]) Success(value T) {
 }
 
 func (s *subscriber[T]) Error(err error) {
-	if s.closed {
+	var none T
+	if !s.end(rx.SignalError, none, err) {
 		return
 	}
-	s.err = err
-	s.closed = true
 	if s.doOnError != nil {
 		s.doOnError(err)
 	}
@@ -179,20 +212,24 @@ func (s *subscriber[T]) Error(err error) {
 }
 
 func (s *subscriber[T]) finally(signal rx.SignalType) {
-	s.signal = signal
 	if s.doFinally != nil {
 		s.doFinally(signal)
 	}
-	for _, fn := range s.m.callbacks {
+	s.m.mu.Lock()
+	s.m.ended = true
+	callbacks := s.m.callbacks
+	s.m.callbacks = nil
+	s.m.mu.Unlock()
+	for _, fn := range callbacks {
 		fn(signal)
 	}
 }
 
 func (s *subscriber[T]) Cancel() {
-	if s.closed {
+	var none T
+	if !s.end(rx.SignalCancel, none, nil) {
 		return
 	}
-	s.closed = true
 	s.finally(rx.SignalCancel)
 }
 
@@ -206,12 +243,30 @@ func Map[S any | ~[]any, D any](mono Mono[S], tx rx.Transform[S, D]) Mono[D] {
 type mapper[S any, D any] struct {
 	mono Mono[S]
 	tx   rx.Transform[S, D]
+
+	mu    sync.Mutex
+	ended bool // the value or error below was delivered
+	value D
+	err   error
+}
+
+func (b *mapper[S, D]) result() (value D, err error, ended bool) {
+	b.mu.Lock()
+	defer b.mu.Unlock()
+	return b.value, b.err, b.ended
+}
+
+func (b *mapper[S, D]) end(value D, err error) {
+	b.mu.Lock()
+	defer b.mu.Unlock()
+	b.value, b.err, b.ended = value, err, true
 }
 
 func (b *mapper[S, D]) Subscribe(sub Subscribe[D]) Mono[D] {
 	b.mono.Subscribe(Subscribe[S]{
 		OnSuccess: func(value S) {
 			converted, err := b.tx(value)
+			b.end(converted, err)
 			if err != nil {
 				if sub.OnError != nil {
 					sub.OnError(err)
@@ -222,22 +277,47 @@ func (b *mapper[S, D]) Subscribe(sub Subscribe[D]) Mono[D] {
 				}
 			}
 		},
-		OnError:   sub.OnError,
+		OnError: func(err error) {
+			var none D
+			b.end(none, err)
+			if sub.OnError != nil {
+				sub.OnError(err)
+			}
+		},
 		OnRequest: sub.OnRequest,
-		Finally:   sub.Finally,
+		Finally: func(signal rx.SignalType) {
+			if sub.Finally != nil {
+				sub.Finally(b.signal(signal))
+			}
+		},
 	})
 	return b
 }
 
+// signal is how the mapped value ended, given how its source ended.
+func (b *mapper[S, D]) signal(signal rx.SignalType) rx.SignalType {
+	if signal == rx.SignalComplete {
+		if _, err, ended := b.result(); ended && err != nil {
+			return rx.SignalError
+		}
+	}
+	return signal
+}
+
 func (b *mapper[S, D]) Async() {
 	b.mono.Async()
 }
 
 func (b *mapper[S, D]) Notify(fn rx.FnFinally) {
-	b.mono.Notify(fn)
+	b.mono.Notify(func(signal rx.SignalType) {
+		fn(b.signal(signal))
+	})
 }
 
 func (b *mapper[S, D]) Get() (D, error) {
+	if value, err, ended := b.result(); ended {
+		return value, err
+	}
 	var d D
 	v, err := b.mono.Get()
 	if err != nil {
diff --git a/rx/mono/mono_host.go b/rx/mono/mono_host.go
index 72e0c0d..1dc42d8 100644
--- a/rx/mono/mono_host.go
+++ b/rx/mono/mono_host.go
@@ -3,44 +3,48 @@
 
 package mono
 
+import (
+	"sync"
+
+	"github.com/nanobus/iota/go/rx"
+)
+
 type Blockable[T any] interface {
 	Block() (T, error)
 }
 
 func (s *mono[T]) Block() (ret T, err error) {
-	if s.subscriber != nil && s.subscriber.closed {
-		return s.subscriber.value, s.subscriber.err
+	if ret, err, closed := s.result(); closed {
+		return ret, err
 	}
 
-	done := make(chan struct{})
-	go func() {
-		s.Subscribe(Subscribe[T]{
-			OnSuccess: func(value T) {
-				ret = value
-				close(done)
-			},
-			OnError: func(e error) {
-				err = e
-				close(done)
-			},
-		})
-	}()
-
-	<-done
-	return ret, err
+	return block[T](s)
 }
 
 func (b *mapper[S, D]) Block() (ret D, err error) {
+	if ret, err, ended := b.result(); ended {
+		return ret, err
+	}
+
+	return block[D](b)
+}
+
+func block[T any](m Mono[T]) (ret T, err error) {
 	done := make(chan struct{})
+	var once sync.Once
+	end := func() { close(done) }
 	go func() {
-		b.Subscribe(Subscribe[D]{
-			OnSuccess: func(value D) {
+		m.Subscribe(Subscribe[T]{
+			OnSuccess: func(value T) {
 				ret = value
-				close(done)
+				once.Do(end)
 			},
 			OnError: func(e error) {
 				err = e
-				close(done)
+				once.Do(end)
+			},
+			Finally: func(rx.SignalType) {
+				once.Do(end)
 			},
 		})
 	}()
diff --git a/rx/mono/processor.go b/rx/mono/processor.go
index a7bb35d..019d730 100644
--- a/rx/mono/processor.go
+++ b/rx/mono/processor.go
@@ -1,5 +1,9 @@
 package mono
 
+import (
+	"sync"
+)
+
 type Processor[T any] interface {
 	Mono[T]
 	Sink[T]
@@ -7,6 +11,8 @@ type Processor[T any] interface {
 
 type ProcessorImpl[T any] struct {
 	Mono[T]
+
+	mu      sync.Mutex
 	sink    Sink[T]
 	success *T
 	err     error
@@ -15,11 +21,14 @@ type ProcessorImpl[T any] struct {
 func NewProcessor[T any]() *ProcessorImpl[T] {
 	p := &ProcessorImpl[T]{}
 	p.Mono = Create(func(sink Sink[T]) {
+		p.mu.Lock()
 		p.sink = sink
-		if p.success != nil {
-			sink.Success(*p.success)
-		} else if p.err != nil {
-			sink.Error(p.err)
+		success, err := p.success, p.err
+		p.mu.Unlock()
+		if success != nil {
+			sink.Success(*success)
+		} else if err != nil {
+			sink.Error(err)
 		}
 	})
 
@@ -27,17 +36,25 @@ func NewProcessor[T any]() *ProcessorImpl[T] {
 }
 
 func (p *ProcessorImpl[T]) Success(value T) {
-	if p.sink != nil {
-		p.sink.Success(value)
-	} else {
+	p.mu.Lock()
+	sink := p.sink
+	if sink == nil && p.err == nil && p.success == nil {
 		p.success = &value
 	}
+	p.mu.Unlock()
+	if sink != nil {
+		sink.Success(value)
+	}
 }
 
 func (p *ProcessorImpl[T]) Error(err error) {
-	if p.sink != nil {
-		p.sink.Error(err)
-	} else {
+	p.mu.Lock()
+	sink := p.sink
+	if sink == nil && p.err == nil && p.success == nil {
 		p.err = err
 	}
+	p.mu.Unlock()
+	if sink != nil {
+		sink.Error(err)
+	}
 }
-- 
2.43.0


From f4530baf2ee9c235031699f4742e4cbeace47eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:40 +0000
Subject: [PATCH 04/31] fix: flow: do not lose, repeat or stall steps around
 finished awaits

---
 rx/flow/flow.go | 60 ++++++++++++++++++++++---------------------------
 1 file changed, 27 insertions(+), 33 deletions(-)

diff --git a/rx/flow/flow.go b/rx/flow/flow.go
index 874f617..c602261 100644
--- a/rx/flow/flow.go
+++ b/rx/flow/flow.go
@@ -1,6 +1,8 @@
 package flow
 
 import (
+	"sync/atomic"
+
 	"github.com/nanobus/iota/go/rx"
 	"github.com/nanobus/iota/go/rx/await"
 	"github.com/nanobus/iota/go/rx/flux"
@@ -13,16 +15,14 @@ type (
 		monoSink mono.Sink[T]
 		fluxSink flux.Sink[T]
 
-		ended      bool
-		completed  int
-		awaitables []await.Awaitable
+		ended atomic.Bool
 	}
 
 	StepFn func() (await.Group, error)
 )
 
 func (f *Flow[T]) End() (await.Group, error) {
-	f.ended = true
+	f.ended.Store(true)
 	return nil, nil
 }
 
@@ -46,6 +46,7 @@ func (f *Flow[T]) Complete() (await.Group, error) {
 	if f.fluxSink == nil {
 		panic("Complete is only called for flux retruns")
 	}
+	f.ended.Store(true)
 	f.fluxSink.Complete()
 
 	return nil, nil
@@ -55,12 +56,14 @@ func (f *Flow[T]) Success(value T) (await.Group, error) {
 	if f.monoSink == nil {
 		panic("success is only called for mono retruns")
 	}
+	f.ended.Store(true)
 	f.monoSink.Success(value)
 
 	return nil, nil
 }
 
 func (f *Flow[T]) Error(err error) (await.Group, error) {
+	f.ended.Store(true)
 	if f.monoSink != nil {
 		f.monoSink.Error(err)
 	} else if f.fluxSink != nil {
@@ -85,38 +88,29 @@ func (f *Flow[T]) Flux() flux.Flux[T] {
 }
 
 func (f *Flow[T]) next() {
-	if len(f.steps) == 0 {
-		return
-	}
+	for len(f.steps) != 0 && !f.ended.Load() {
+		step := f.steps[0]
+		f.steps = f.steps[1:]
+		awaitables, err := step()
+		if err != nil {
+			f.Error(err)
+			return
+		}
 
-	f.completed = 0
-	step := f.steps[0]
-	awaitables, err := step()
-	if err != nil {
-		if f.monoSink != nil {
-			f.monoSink.Error(err)
-		} else if f.fluxSink != nil {
-			f.fluxSink.Error(err)
+		if len(awaitables) == 0 {
+			continue // Nothing to wait for.
 		}
-		return
-	}
 
-	if f.ended {
+		// The last awaitable to finish starts the next step.
+		pending := int32(len(awaitables))
+		for _, a := range awaitables {
+			a.Async() // Ensure task is running.
+			a.Notify(func(rx.SignalType) {
+				if atomic.AddInt32(&pending, -1) == 0 {
+					f.next()
+				}
+			})
+		}
 		return
 	}
-
-	f.awaitables = awaitables
-	for _, a := range f.awaitables {
-		a.Async() // Ensure task is running.
-		a.Notify(f.check)
-	}
-
-	f.steps = f.steps[1:]
-}
-
-func (f *Flow[T]) check(rx.SignalType) {
-	f.completed++
-	if f.completed >= len(f.awaitables) {
-		f.next()
-	}
 }
-- 
2.43.0


From cb9dd16b4ee3e006e94a5a792f439019d2b05c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:40 +0000
Subject: [PATCH 05/31] fix: transform: FluxToMono of an empty stream fails,
 MonoToFlux waits for demand

---
 transform/transform.go | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/transform/transform.go b/transform/transform.go
index 886125c..d3c5823 100644
--- a/transform/transform.go
+++ b/transform/transform.go
@@ -1,6 +1,7 @@
 package transform
 
 import (
+	"errors"
 	"time"
 
 	"golang.org/x/exp/constraints"
@@ -13,6 +14,9 @@ import (
 	"github.com/nanobus/iota/go/rx/mono"
 )
 
+// ErrNoValue is the error of a single value taken from a stream that had none.
+var ErrNoValue = errors.New("completed without a value")
+
 type Transform[T any] struct {
 	Decode func(raw payload.Payload) (T, error)
 	Encode func(decoded T) (payload.Payload, error)
@@ -516,6 +520,10 @@ func FluxToMono[T any](f flux.Flux[T]) mono.Mono[T] {
 			OnNext: func(val T) {
 				sink.Success(val)
 			},
+			OnComplete: func() {
+				// Has no effect if there was a value.
+				sink.Error(ErrNoValue)
+			},
 			OnError: func(err error) {
 				sink.Error(err)
 			},
@@ -525,13 +533,22 @@ func FluxToMono[T any](f flux.Flux[T]) mono.Mono[T] {
 
 func MonoToFlux[T any](f mono.Mono[T]) flux.Flux[T] {
 	return flux.Create(func(sink flux.Sink[T]) {
-		f.Subscribe(mono.Subscribe[T]{
-			OnSuccess: func(val T) {
-				sink.Next(val)
-				sink.Complete()
-			},
-			OnError: func(err error) {
-				sink.Error(err)
+		subscribed := false
+		sink.OnSubscribe(flux.OnSubscribe{
+			Request: func(n int) {
+				if subscribed || n <= 0 {
+					return
+				}
+				subscribed = true
+				f.Subscribe(mono.Subscribe[T]{
+					OnSuccess: func(val T) {
+						sink.Next(val)
+						sink.Complete()
+					},
+					OnError: func(err error) {
+						sink.Error(err)
+					},
+				})
 			},
 		})
 	})
-- 
2.43.0


From 2873df57106555c3a4128ac55fd1651beb4c0330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:14 +0000
Subject: [PATCH 06/31] fix: live instances: handles are never reused and stale
 ones never dereferenced

---
 invoke/instances.go | 25 +++++++++----------------
 1 file changed, 9 insertions(+), 16 deletions(-)

diff --git a/invoke/instances.go b/invoke/instances.go
index a32508e..69772ce 100644
--- a/invoke/instances.go
+++ b/invoke/instances.go
@@ -3,7 +3,6 @@ package invoke
 import (
 	"errors"
 	"sync"
-	"unsafe"
 )
 
 type Ptr[T any] struct {
@@ -14,42 +13,36 @@ var ErrNoInstance = errors.New("no instance is active for this pointer")
 
 type LiveInstances[T any] struct {
 	mu        sync.RWMutex
-	instances map[*Ptr[T]]struct{}
+	last      uint64 // handles are never reused
+	instances map[uint64]T
 }
 
 func NewLiveInstances[T any]() *LiveInstances[T] {
 	return &LiveInstances[T]{
-		instances: make(map[*Ptr[T]]struct{}),
+		instances: make(map[uint64]T),
 	}
 }
 
 func (t *LiveInstances[T]) Get(id uint64) (inst T, ok bool) {
 	t.mu.RLock()
 	defer t.mu.RUnlock()
-	ptr := (*Ptr[T])(unsafe.Pointer(uintptr(id)))
-	_, ok = t.instances[ptr]
-	if ok {
-		inst = ptr.Ptr
-	}
+	inst, ok = t.instances[id]
 	return
 }
 
 func (t *LiveInstances[T]) Put(inst T) uint64 {
-	ptr := &Ptr[T]{Ptr: inst}
-	handle := uint64(uintptr(unsafe.Pointer(ptr)))
 	t.mu.Lock()
 	defer t.mu.Unlock()
-	t.instances[ptr] = struct{}{}
-	return handle
+	t.last++
+	t.instances[t.last] = inst
+	return t.last
 }
 
 func (t *LiveInstances[T]) Remove(id uint64) (inst T, ok bool) {
-	ptr := (*Ptr[T])(unsafe.Pointer(uintptr(id)))
 	t.mu.Lock()
 	defer t.mu.Unlock()
-	if _, ok = t.instances[ptr]; ok {
-		inst = ptr.Ptr
-		delete(t.instances, ptr)
+	if inst, ok = t.instances[id]; ok {
+		delete(t.instances, id)
 	}
 	return
 }
-- 
2.43.0


From a3800045fbc1fc5c89bbf9a3934e201779a4916b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:14 +0000
Subject: [PATCH 07/31] fix: portio: separate next and complete flags, reject
 truncated messages

---
 invoke/portio.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/invoke/portio.go b/invoke/portio.go
index 0f787ce..521bd2e 100644
--- a/invoke/portio.go
+++ b/invoke/portio.go
@@ -2,9 +2,12 @@ package invoke
 
 import (
 	"encoding/binary"
+	"errors"
 	"strings"
 )
 
+var errTruncatedPortIO = errors.New("portio: message is truncated")
+
 type PortIO struct {
 	Port     string
 	Data     []byte
@@ -13,12 +16,18 @@ type PortIO struct {
 }
 
 func (f *PortIO) Decode(data []byte) error {
+	if len(data) < 3 {
+		return errTruncatedPortIO
+	}
 	flags := Flags(data[0])
 	complete := flags.Check(FlagComplete)
 	next := flags.Check(FlagNext)
 	data = data[1:]
 	portLength := binary.BigEndian.Uint16(data)
 	data = data[2:]
+	if len(data) < int(portLength) {
+		return errTruncatedPortIO
+	}
 	port := string(data[:portLength])
 	data = data[portLength:]
 
@@ -71,7 +80,7 @@ func (f Flags) String() string {
 
 // All frame flags
 const (
-	FlagNext Flags = 1
+	FlagNext Flags = 1 << iota
 	FlagComplete
 )
 
-- 
2.43.0


From b4f0a16c9363b03303f27028c2082c108e0ef879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:14 +0000
Subject: [PATCH 08/31] fix: server stream ids skip zero when the counter wraps

---
 internal/socket/stream_id.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/socket/stream_id.go b/internal/socket/stream_id.go
index 974ab23..b25f404 100644
--- a/internal/socket/stream_id.go
+++ b/internal/socket/stream_id.go
@@ -20,9 +20,9 @@ type ServerStreamIDs uint64
 func (p *ServerStreamIDs) Next() (uint32, bool) {
 	// 2,4,6,8...
 	seed := atomic.AddUint64((*uint64)(p), 1)
-	v := 2 * seed
+	v := _maskStreamID & (2 * seed)
 	if v != 0 {
-		return uint32(_maskStreamID & v), seed <= _halfSeed
+		return uint32(v), seed <= _halfSeed
 	}
 	return p.Next()
 }
-- 
2.43.0


From 5eac8dc4b3b07a95c34c7f27582bac957d91dadd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:14 +0000
Subject: [PATCH 09/31] fix: operation table: reject truncated input instead of
 crashing

---
 operations/operatons.go | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/operations/operatons.go b/operations/operatons.go
index bca2fb2..1bf24a3 100644
--- a/operations/operatons.go
+++ b/operations/operatons.go
@@ -62,32 +62,52 @@ func (d Direction) String() string {
 // Magic is the 4 byte preamble (literally "\0wrs") of the binary format
 var Magic = []byte{0x00, 0x77, 0x72, 0x73}
 var ErrInvalidMagicNumber = errors.New("invalid magic number")
+var ErrTruncated = errors.New("operation table is truncated")
+
+// minOperationSize is the encoded size of an operation with empty names.
+const minOperationSize = 12
 
 func FromBytes(buf []byte) (Table, error) {
-	if !bytes.Equal(buf[0:4], Magic) {
+	if len(buf) < 4 || !bytes.Equal(buf[0:4], Magic) {
 		return nil, ErrInvalidMagicNumber
 	}
 	buf = buf[4:]
 
+	if len(buf) < 6 {
+		return nil, ErrTruncated
+	}
+
 	// Read version.
 	version := binary.BigEndian.Uint16(buf)
 	if version != 1 {
-		return nil, errors.New("Unknown operation table version %d" + strconv.Itoa(int(version)))
+		return nil, errors.New("Unknown operation table version " + strconv.Itoa(int(version)))
 	}
 	buf = buf[2:]
 	numOps := binary.BigEndian.Uint32(buf)
-	operations := make(Table, numOps)
 	buf = buf[4:]
+	if uint64(numOps)*minOperationSize > uint64(len(buf)) {
+		return nil, ErrTruncated
+	}
+	operations := make(Table, numOps)
 	for i := 0; i < int(numOps); i++ {
+		if len(buf) < 8 {
+			return nil, ErrTruncated
+		}
 		opType := RequestType(buf[0])
 		dir := Direction(buf[1])
 		id := binary.BigEndian.Uint32(buf[2:6])
 		nsLen := binary.BigEndian.Uint16(buf[6:8])
 		buf = buf[8:]
+		if len(buf) < int(nsLen)+2 {
+			return nil, ErrTruncated
+		}
 		ns := string(buf[:nsLen])
 		buf = buf[nsLen:]
 		opLen := binary.BigEndian.Uint16(buf[0:2])
 		buf = buf[2:]
+		if len(buf) < int(opLen)+2 {
+			return nil, ErrTruncated
+		}
 		op := string(buf[:opLen])
 		buf = buf[opLen:]
 		operations[i] = Operation{
@@ -98,7 +118,10 @@ func FromBytes(buf []byte) (Table, error) {
 			Operation: op,
 		}
 		reservedLen := binary.BigEndian.Uint16(buf)
-		buf = buf[2+reservedLen:] // Reserved
+		if len(buf) < 2+int(reservedLen) {
+			return nil, ErrTruncated
+		}
+		buf = buf[2+int(reservedLen):] // Reserved
 	}
 
 	return operations, nil
-- 
2.43.0


From ef1df98b390e0da52deb2d28db359a9084cd450e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:48 +0000
Subject: [PATCH 10/31] fix: uuid: the braced form needs its braces

---
 types/uuid/uuid.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/types/uuid/uuid.go b/types/uuid/uuid.go
index 61a3725..1d18343 100644
--- a/types/uuid/uuid.go
+++ b/types/uuid/uuid.go
@@ -76,6 +76,9 @@ func Parse(s string) (UUID, error) {
 
 	// {xxxxxxxx-xxxx-xxxx-xxxx-xxxxxxxxxxxx}
 	case 36 + 2:
+		if s[0] != '{' || s[37] != '}' {
+			return uuid, errors.New("invalid UUID format")
+		}
 		s = s[1:]
 
 	// xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx
@@ -122,6 +125,9 @@ func ParseBytes(b []byte) (UUID, error) {
 		}
 		b = b[9:]
 	case 36 + 2: // {xxxxxxxx-xxxx-xxxx-xxxx-xxxxxxxxxxxx}
+		if b[0] != '{' || b[37] != '}' {
+			return uuid, errors.New("invalid UUID format")
+		}
 		b = b[1:]
 	case 32: // xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx
 		var ok bool
-- 
2.43.0


From 40c9285cb447125d207bc1e768b5427d7977e8e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:09 +0000
Subject: [PATCH 11/31] fix: frames: first fragment's metadata is not sent
 again

---
 internal/frames/request_payload.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/frames/request_payload.go b/internal/frames/request_payload.go
index f9095c1..9cef12d 100644
--- a/internal/frames/request_payload.go
+++ b/internal/frames/request_payload.go
@@ -170,4 +170,5 @@ func min[T constraints.Ordered](left, right T) T {
 		return left
 	}
 	return right
+		metadata = metadata[lenMd:]
 }
-- 
2.43.0


From 618ce3a8f72f4ac709850412f47faaa2f6ba6bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:09 +0000
Subject: [PATCH 12/31] fix: frames: setup size and durations, follow flag of
 requests

---
 internal/frames/request_payload.go | 3 +++
 internal/frames/setup.go           | 6 +++---
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/internal/frames/request_payload.go b/internal/frames/request_payload.go
index 9cef12d..bee6e5e 100644
--- a/internal/frames/request_payload.go
+++ b/internal/frames/request_payload.go
@@ -84,6 +84,9 @@ func (f *RequestPayload) Encode(buf []byte) {
 	payload = payload[FrameHeaderLen:]
 
 	if f.FrameType == FrameTypeRequestStream || f.FrameType == FrameTypeRequestChannel {
+	if f.Follows {
+		flags |= FlagFollow
+	}
 		binary.BigEndian.PutUint32(payload, f.InitialN)
 		payload = payload[4:]
 	}
diff --git a/internal/frames/setup.go b/internal/frames/setup.go
index cc24bf7..b22955b 100644
--- a/internal/frames/setup.go
+++ b/internal/frames/setup.go
@@ -103,8 +103,8 @@ func (f *Setup) Encode(buf []byte) {
 
 	binary.BigEndian.PutUint16(payload, f.MajorVersion)
 	binary.BigEndian.PutUint16(payload[2:], f.MinorVersion)
-	binary.BigEndian.PutUint32(payload[4:], uint32(f.TimeBetweenKeepalive)/uint32(time.Millisecond))
-	binary.BigEndian.PutUint32(payload[8:], uint32(f.MaxLifetime)/uint32(time.Millisecond))
+	binary.BigEndian.PutUint32(payload[4:], uint32(f.TimeBetweenKeepalive/time.Millisecond))
+	binary.BigEndian.PutUint32(payload[8:], uint32(f.MaxLifetime/time.Millisecond))
 
 	payload = payload[12:]
 
@@ -142,7 +142,7 @@ func (f *Setup) Size() uint32 {
 
 	metadataLen := uint32(len(f.Metadata))
 	tokenLen := uint32(len(f.Token))
-	size += metadataLen + tokenLen + uint32(len(f.Data)+len(f.Token)+len(f.MimeMetadata)+len(f.MimeData))
+	size += metadataLen + tokenLen + uint32(len(f.Data)+len(f.MimeMetadata)+len(f.MimeData))
 	if tokenLen > 0 {
 		size += 2
 	}
-- 
2.43.0


From 7aab2b1c5b8df90db53a2b356f0e87a56ab7e3ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:09 +0000
Subject: [PATCH 13/31] fix: frames: truncated frames are an error, not a crash

---
 internal/frames/error.go           |  3 +++
 internal/frames/payload.go         |  6 ++++++
 internal/frames/request_n.go       |  3 +++
 internal/frames/request_payload.go | 17 +++++++++++++----
 internal/frames/setup.go           | 27 ++++++++++++++++++++++++---
 internal/frames/util.go            |  4 ++++
 6 files changed, 53 insertions(+), 7 deletions(-)

diff --git a/internal/frames/error.go b/internal/frames/error.go
index f6966b6..07271e1 100644
--- a/internal/frames/error.go
+++ b/internal/frames/error.go
@@ -21,6 +21,9 @@ func (f *Error) Type() FrameType {
 }
 
 func (f *Error) Decode(header *FrameHeader, payload []byte) error {
+	if len(payload) < 4 {
+		return ErrTruncated
+	}
 	code := binary.BigEndian.Uint32(payload)
 	data := string(payload[4:])
 
diff --git a/internal/frames/payload.go b/internal/frames/payload.go
index 6a6b18b..1a14645 100644
--- a/internal/frames/payload.go
+++ b/internal/frames/payload.go
@@ -32,10 +32,16 @@ func (f *Payload) Decode(header *FrameHeader, payload []byte) error {
 	metadata := emptyBuffer
 
 	if hasMetadata {
+		if len(payload) < 3 {
+			return ErrTruncated
+		}
 		var mdLengthBuf [4]byte
 		copy(mdLengthBuf[1:], payload[0:3])
 		mdLength := binary.BigEndian.Uint32(mdLengthBuf[:])
 		payload = payload[3:]
+		if uint32(len(payload)) < mdLength {
+			return ErrTruncated
+		}
 		metadata = payload[:mdLength]
 		payload = payload[mdLength:]
 	}
diff --git a/internal/frames/request_n.go b/internal/frames/request_n.go
index 636df9d..dedc01b 100644
--- a/internal/frames/request_n.go
+++ b/internal/frames/request_n.go
@@ -20,6 +20,9 @@ func (f *RequestN) Type() FrameType {
 }
 
 func (f *RequestN) Decode(header *FrameHeader, payload []byte) error {
+	if len(payload) < 4 {
+		return ErrTruncated
+	}
 	n := binary.BigEndian.Uint32(payload)
 
 	*f = RequestN{
diff --git a/internal/frames/request_payload.go b/internal/frames/request_payload.go
index bee6e5e..27a8a01 100644
--- a/internal/frames/request_payload.go
+++ b/internal/frames/request_payload.go
@@ -38,6 +38,9 @@ func (f *RequestPayload) Decode(header *FrameHeader, payload []byte) error {
 	complete := true
 
 	if frameType == FrameTypeRequestStream || frameType == FrameTypeRequestChannel {
+		if len(payload) < 4 {
+			return ErrTruncated
+		}
 		initialN = binary.BigEndian.Uint32(payload)
 		payload = payload[4:]
 	}
@@ -47,10 +50,16 @@ func (f *RequestPayload) Decode(header *FrameHeader, payload []byte) error {
 
 	metadata := emptyBuffer
 	if hasMetadata {
+		if len(payload) < 3 {
+			return ErrTruncated
+		}
 		var mdLengthBuf [4]byte
 		copy(mdLengthBuf[1:], payload[0:3])
 		mdLength := binary.BigEndian.Uint32(mdLengthBuf[:])
 		payload = payload[3:]
+		if uint32(len(payload)) < mdLength {
+			return ErrTruncated
+		}
 		metadata = payload[:mdLength]
 		payload = payload[mdLength:]
 	}
@@ -75,6 +84,9 @@ func (f *RequestPayload) Encode(buf []byte) {
 	if f.FrameType == FrameTypeRequestChannel && f.Complete {
 		flags |= FlagComplete
 	}
+	if f.Follows {
+		flags |= FlagFollow
+	}
 
 	if metadataLen > 0 {
 		flags |= FlagMetadata
@@ -84,9 +96,6 @@ func (f *RequestPayload) Encode(buf []byte) {
 	payload = payload[FrameHeaderLen:]
 
 	if f.FrameType == FrameTypeRequestStream || f.FrameType == FrameTypeRequestChannel {
-	if f.Follows {
-		flags |= FlagFollow
-	}
 		binary.BigEndian.PutUint32(payload, f.InitialN)
 		payload = payload[4:]
 	}
@@ -161,6 +170,7 @@ func (f *RequestPayload) Fragment(maxFrameSize uint32) []Frame {
 			Complete:  false,
 			InitialN:  f.InitialN,
 		})
+		metadata = metadata[lenMd:]
 	}
 
 	frames = splitPayloads(frames, f.StreamID, true, f.Complete, maxFrameSize, data, metadata)
@@ -173,5 +183,4 @@ func min[T constraints.Ordered](left, right T) T {
 		return left
 	}
 	return right
-		metadata = metadata[lenMd:]
 }
diff --git a/internal/frames/setup.go b/internal/frames/setup.go
index b22955b..8dba7ab 100644
--- a/internal/frames/setup.go
+++ b/internal/frames/setup.go
@@ -35,6 +35,9 @@ func (f *Setup) Decode(header *FrameHeader, payload []byte) error {
 	lease := flags.Check(FlagLease)
 	var metadata []byte
 
+	if len(payload) < 12 {
+		return ErrTruncated
+	}
 	major := binary.BigEndian.Uint16(payload)
 	minor := binary.BigEndian.Uint16(payload[2:])
 	timeBetweenKeepalive := time.Millisecond * time.Duration(binary.BigEndian.Uint32(payload[4:]))
@@ -44,25 +47,43 @@ func (f *Setup) Decode(header *FrameHeader, payload []byte) error {
 	data := payload[12:]
 
 	if resume {
-		tokenLength := binary.BigEndian.Uint16(data)
+		if len(data) < 2 {
+			return ErrTruncated
+		}
+		tokenLength := int(binary.BigEndian.Uint16(data))
+		if len(data) < 2+tokenLength {
+			return ErrTruncated
+		}
 		token = data[2 : 2+tokenLength]
 		data = data[2+tokenLength:]
 	}
 
-	metadataMimeLength := data[0]
+	if len(data) < 1 || len(data) < 1+int(data[0]) {
+		return ErrTruncated
+	}
+	metadataMimeLength := int(data[0])
 	mimeMetadata := string(data[1 : 1+metadataMimeLength])
 	data = data[1+metadataMimeLength:]
 
-	dataMimeLength := data[0]
+	if len(data) < 1 || len(data) < 1+int(data[0]) {
+		return ErrTruncated
+	}
+	dataMimeLength := int(data[0])
 	mimeData := string(data[1 : 1+dataMimeLength])
 	data = data[1+dataMimeLength:]
 	payload = data
 
 	if hasMetadata {
+		if len(data) < 3 {
+			return ErrTruncated
+		}
 		var mdLengthBuf [4]byte
 		copy(mdLengthBuf[1:], data[0:3])
 		mdLength := binary.BigEndian.Uint32(mdLengthBuf[:])
 		data = data[3:]
+		if uint32(len(data)) < mdLength {
+			return ErrTruncated
+		}
 		metadata = data[:mdLength]
 		payload = data[mdLength:]
 	}
diff --git a/internal/frames/util.go b/internal/frames/util.go
index d962f97..4e2d6e4 100644
--- a/internal/frames/util.go
+++ b/internal/frames/util.go
@@ -2,8 +2,12 @@ package frames
 
 import (
 	"encoding/binary"
+	"errors"
 )
 
+// ErrTruncated is returned when a frame ends before all of its fields.
+var ErrTruncated = errors.New("frame is truncated")
+
 var emptyBuffer = []byte{}
 
 func readString(payload []byte) (string, []byte) {
-- 
2.43.0


From 5adcb2ef9ace1a3b62c441ba15eb7c6e12f486cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:30 +0000
Subject: [PATCH 14/31] fix: custom sections: empty sections at the end, sizes
 beyond the file

---
 transport/wasmrs/customsections/customsections.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/transport/wasmrs/customsections/customsections.go b/transport/wasmrs/customsections/customsections.go
index 480e332..37a639f 100644
--- a/transport/wasmrs/customsections/customsections.go
+++ b/transport/wasmrs/customsections/customsections.go
@@ -106,6 +106,9 @@ func decodeUTF8(r *bytes.Reader, contextFormat string, contextArgs ...interface{
 		return "", 0, fmt.Errorf("failed to read %s size: %w", fmt.Sprintf(contextFormat, contextArgs...), err)
 	}
 
+	if int64(size) > int64(r.Len()) {
+		return "", 0, fmt.Errorf("failed to read %s: %w", fmt.Sprintf(contextFormat, contextArgs...), io.ErrUnexpectedEOF)
+	}
 	buf := make([]byte, size)
 	if _, err = io.ReadFull(r, buf); err != nil {
 		return "", 0, fmt.Errorf("failed to read %s: %w", fmt.Sprintf(contextFormat, contextArgs...), err)
@@ -122,8 +125,11 @@ func decodeUTF8(r *bytes.Reader, contextFormat string, contextArgs ...interface{
 //
 // See https://www.w3.org/TR/2019/REC-wasm-core-1-20191205/#custom-section%E2%91%A0
 func decodeCustomSection(r *bytes.Reader, name string, limit uint64) (result *wasm.CustomSection, err error) {
+	if limit > uint64(r.Len()) {
+		return nil, io.ErrUnexpectedEOF
+	}
 	buf := make([]byte, limit)
-	_, err = r.Read(buf)
+	_, err = io.ReadFull(r, buf)
 
 	result = &wasm.CustomSection{
 		Name: name,
-- 
2.43.0


From 479788ad5428db91a487333ae73c10d058d920ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:00 +0000
Subject: [PATCH 15/31] fix: streams keep demand, cancels, input and order, and
 end each direction once

---
 handler/caller.go                 |   4 +-
 handler/handler.go                | 198 +++++++------------------
 proxy/flux.go                     | 235 +++++++++++++++++++++++------
 proxy/mono.go                     |  63 ++++++--
 proxy/responder.go                | 229 +++++++++++++++++++++++++++++
 proxy/sequence.go                 |  45 ++++++
 proxy/stream.go                   |   8 +
 transport/wasmrs/guest/caller.go  |   4 +-
 transport/wasmrs/guest/guest.go   | 205 +++++++-------------------
 transport/wasmrs/host/caller.go   |   4 +-
 transport/wasmrs/host/instance.go | 236 ++++++++----------------------
 11 files changed, 700 insertions(+), 531 deletions(-)
 create mode 100644 proxy/responder.go
 create mode 100644 proxy/sequence.go

diff --git a/handler/caller.go b/handler/caller.go
index 7a2eb92..05aa806 100644
--- a/handler/caller.go
+++ b/handler/caller.go
@@ -92,7 +92,7 @@ func (i *Handler) RequestStream(ctx context.Context, p payload.Payload) flux.Flu
 		Metadata:  p.Metadata(),
 		Data:      p.Data(),
 		InitialN:  rx.RequestMax,
-	}, nil, i.SendFrame, i.registerStream)
+	}, nil, i.SendFrame, i.registerStream, i.removeStream)
 }
 
 func (i *Handler) RequestChannel(ctx context.Context, p payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
@@ -102,7 +102,7 @@ func (i *Handler) RequestChannel(ctx context.Context, p payload.Payload, in flux
 		Metadata:  p.Metadata(),
 		Data:      p.Data(),
 		InitialN:  rx.RequestMax,
-	}, in, i.SendFrame, i.registerStream)
+	}, in, i.SendFrame, i.registerStream, i.removeStream)
 }
 
 func (i *Handler) getNextStreamID() uint32 {
diff --git a/handler/handler.go b/handler/handler.go
index 73cb055..76f90cf 100644
--- a/handler/handler.go
+++ b/handler/handler.go
@@ -4,7 +4,6 @@ import (
 	"context"
 	"encoding/binary"
 	"errors"
-	"fmt"
 
 	"github.com/nanobus/iota/go/internal/frames"
 	"github.com/nanobus/iota/go/internal/socket"
@@ -12,8 +11,6 @@ import (
 	"github.com/nanobus/iota/go/operations"
 	"github.com/nanobus/iota/go/payload"
 	"github.com/nanobus/iota/go/proxy"
-	"github.com/nanobus/iota/go/rx"
-	"github.com/nanobus/iota/go/rx/flux"
 	"github.com/nanobus/iota/go/rx/mono"
 )
 
@@ -103,6 +100,24 @@ func (i *Handler) getStream(streamID uint32) (proxy.Stream, bool) {
 	}
 }
 
+// accept registers an incoming stream, before any frame that follows it.
+func (i *Handler) accept(streamID uint32, channel bool) *proxy.Responder {
+	s := i.responder(streamID, channel)
+	i.registerStream(s)
+	return s
+}
+
+func (i *Handler) responder(streamID uint32, channel bool) *proxy.Responder {
+	return proxy.NewResponder(i.ctx, streamID, channel, i.SendFrame, i.removeStream, func() {})
+}
+
+// endStream removes a stream that ends with its response.
+func (i *Handler) endStream(s proxy.Stream) {
+	if _, ok := s.(proxy.Duplex); !ok {
+		i.removeStream(s.StreamID())
+	}
+}
+
 func (i *Handler) SendFrame(f frames.Frame) error {
 	return i.sendFrame(f)
 }
@@ -115,11 +130,7 @@ func (i *Handler) HandleFrame(f frames.Frame) (err error) {
 		var ok bool
 		str, ok = i.getStream(streamID)
 		if !ok {
-			// Return error
-			if frameType != frames.FrameTypeRequestN {
-				return fmt.Errorf("stream ID %d not found", streamID)
-			}
-			return
+			return // The stream has ended.
 		}
 	}
 
@@ -156,7 +167,7 @@ func (i *Handler) HandleFrame(f frames.Frame) (err error) {
 			// 	return
 			// }
 
-			go i.handleRequestStream(i.ctx, streamID, v.Data, v.Metadata, v.InitialN)
+			go i.handleRequestStream(i.accept(streamID, false), v.Data, v.Metadata, v.InitialN)
 
 		case frames.FrameTypeRequestChannel:
 			// if i.checkFollows(&rc) {
@@ -164,16 +175,18 @@ func (i *Handler) HandleFrame(f frames.Frame) (err error) {
 			// 	return
 			// }
 
-			go i.handleRequestChannel(i.ctx, streamID, v.Data, v.Metadata, v.InitialN)
+			go i.handleRequestChannel(i.accept(streamID, true), v.Data, v.Metadata, v.InitialN)
 		}
 
 	case *frames.RequestN:
-		s := str.(DoRequest)
-		go s.DoRequest(int(v.N))
+		if s, ok := str.(DoRequest); ok {
+			go s.DoRequest(int(v.N))
+		}
 
 	case *frames.Cancel:
-		str.OnComplete()
-		i.removeStream(streamID)
+		if s, ok := str.(proxy.Duplex); ok {
+			s.OnCancel()
+		}
 
 	case *frames.Payload:
 		// pl, ok := i.fragmentedPayloads[p.StreamID]
@@ -227,13 +240,12 @@ func (i *Handler) HandleFrame(f frames.Frame) (err error) {
 
 		if v.Complete {
 			str.OnComplete()
-			i.removeStream(streamID)
+			i.endStream(str)
 		}
 
 	case *frames.Error:
 		str.OnError(errors.New(v.Data))
-		str.OnComplete()
-		i.removeStream(streamID)
+		i.endStream(str)
 	}
 
 	return nil
@@ -255,17 +267,22 @@ func (i *Handler) handleRequestResponse(ctx context.Context, streamID uint32, da
 	}
 
 	p := payload.New(data, metadata[8:])
-	s := requestStream{ctx: ctx, streamID: streamID}
-	ctx = proxy.WithContext(ctx, &s)
+	s := i.responder(streamID, false)
+	ctx = proxy.WithContext(ctx, s)
 	handler(ctx, p).Subscribe(mono.Subscribe[payload.Payload]{
 		OnSuccess: func(p payload.Payload) {
-			i.sendFrame(&frames.Payload{
+			if err := i.sendFrame(&frames.Payload{
 				StreamID: streamID,
 				Metadata: p.Metadata(),
 				Data:     p.Data(),
 				Next:     true,
 				Complete: true,
-			})
+			}); err != nil {
+				i.sendFrame(&frames.Error{
+					StreamID: streamID,
+					Data:     err.Error(),
+				})
+			}
 		},
 		OnError: func(err error) {
 			i.sendFrame(&frames.Error{
@@ -292,121 +309,44 @@ func (i *Handler) handleFireAndForget(ctx context.Context, streamID uint32, data
 	}
 
 	p := payload.New(data, metadata[8:])
-	s := requestStream{ctx: ctx, streamID: streamID}
-	i.registerStream(&s)
-	ctx = proxy.WithContext(ctx, &s)
+	s := i.responder(streamID, false)
+	ctx = proxy.WithContext(ctx, s)
 	handler(ctx, p)
 }
 
-func (i *Handler) handleRequestStream(ctx context.Context, streamID uint32, data, metadata []byte, initialN uint32) {
-	if !i.checkMetadata(streamID, metadata) {
+func (i *Handler) handleRequestStream(s *proxy.Responder, data, metadata []byte, initialN uint32) {
+	if len(metadata) < 8 {
+		s.Fail("Invalid metadata")
 		return
 	}
 
 	operationID := binary.BigEndian.Uint32(metadata)
 	handler := invoke.GetRequestStreamHandler(operationID)
 	if handler == nil {
-		i.sendFrame(&frames.Error{
-			StreamID: streamID,
-			Data:     "not_found",
-		})
+		s.Fail("not_found")
 		return
 	}
 
 	p := payload.New(data, metadata)
-	s := requestStream{ctx: ctx, streamID: streamID}
-	i.registerStream(&s) // Need to register for RequestN frames
 	// ctx := stream.WithContext(context.Background(), s)
-	f := handler(ctx, p)
-	f.Subscribe(flux.Subscribe[payload.Payload]{
-		OnNext: func(p payload.Payload) {
-			i.sendFrame(&frames.Payload{
-				StreamID: streamID,
-				Metadata: p.Metadata(),
-				Data:     p.Data(),
-				Next:     true,
-			})
-		},
-		OnComplete: func() {
-			i.sendFrame(&frames.Payload{
-				StreamID: streamID,
-				Complete: true,
-			})
-		},
-		OnError: func(err error) {
-			i.sendFrame(&frames.Error{
-				StreamID: streamID,
-				Data:     err.Error(),
-			})
-		},
-		NoRequest: true,
-	})
-	sub := f.Subscription()
-	s.sub = sub
-	s.Request(int(initialN))
+	s.Respond(handler(s.Context(), p), initialN)
 }
 
-func (i *Handler) handleRequestChannel(ctx context.Context, streamID uint32, data, metadata []byte, initialN uint32) {
-	if !i.checkMetadata(streamID, metadata) {
+func (i *Handler) handleRequestChannel(s *proxy.Responder, data, metadata []byte, initialN uint32) {
+	if len(metadata) < 8 {
+		s.Fail("Invalid metadata")
 		return
 	}
 
 	operationID := binary.BigEndian.Uint32(metadata)
 	handler := invoke.GetRequestChannelHandler(operationID)
 	if handler == nil {
-		i.sendFrame(&frames.Error{
-			StreamID: streamID,
-			Data:     "not_found",
-		})
+		s.Fail("not_found")
 		return
 	}
 
 	p := payload.New(data, metadata)
-	s := requestStream{streamID: streamID}
-	i.registerStream(&s) // Need to register for RequestN frames
-	in := flux.Create(func(sink flux.Sink[payload.Payload]) {
-		s.sink = sink
-		sink.OnSubscribe(flux.OnSubscribe{
-			Request: func(n int) {
-				i.sendFrame(&frames.RequestN{
-					StreamID: streamID,
-					N:        uint32(n),
-				})
-			},
-			Cancel: func() {
-				i.sendFrame(&frames.Cancel{
-					StreamID: streamID,
-				})
-			},
-		})
-	})
-	f := handler(ctx, p, in)
-	f.Subscribe(flux.Subscribe[payload.Payload]{
-		OnNext: func(p payload.Payload) {
-			i.sendFrame(&frames.Payload{
-				StreamID: streamID,
-				Metadata: p.Metadata(),
-				Data:     p.Data(),
-				Next:     true,
-			})
-		},
-		OnComplete: func() {
-			i.sendFrame(&frames.Payload{
-				StreamID: streamID,
-				Complete: true,
-			})
-		},
-		OnError: func(err error) {
-			i.sendFrame(&frames.Error{
-				StreamID: streamID,
-				Data:     err.Error(),
-			})
-		},
-		NoRequest: true,
-	})
-	sub := f.Subscription()
-	s.sub = sub
-	s.Request(int(initialN))
+	s.Respond(handler(s.Context(), p, s.In()), initialN)
 }
 
 // func (i *Handler) handleRequestResponse(ctx context.Context, streamID uint32, data, metadata []byte) {
@@ -685,41 +625,3 @@ func (i *Handler) checkMetadata(streamID uint32, metadata []byte) bool {
 type DoRequest interface {
 	DoRequest(n int)
 }
-
-type requestStream struct {
-	ctx      context.Context
-	streamID uint32
-	flux.Sink[payload.Payload]
-	sub  rx.Subscription
-	sink flux.Sink[payload.Payload]
-}
-
-var _ = (proxy.Stream)((*requestStream)(nil))
-
-func (r *requestStream) Context() context.Context {
-	return r.ctx
-}
-
-func (r *requestStream) StreamID() uint32 {
-	return r.streamID
-}
-
-func (r *requestStream) Request(n int) {
-	r.sub.Request(n)
-}
-
-func (r *requestStream) DoRequest(n int) {
-	r.sub.Request(n)
-}
-
-func (r *requestStream) OnNext(p payload.Payload) {
-	r.sink.Next(p)
-}
-
-func (r *requestStream) OnComplete() {
-	r.sink.Complete()
-}
-
-func (r *requestStream) OnError(err error) {
-	r.sink.Error(err)
-}
diff --git a/proxy/flux.go b/proxy/flux.go
index 6f0f588..15183bc 100644
--- a/proxy/flux.go
+++ b/proxy/flux.go
@@ -2,6 +2,7 @@ package proxy
 
 import (
 	"context"
+	"sync"
 
 	"github.com/nanobus/iota/go/internal/frames"
 	"github.com/nanobus/iota/go/payload"
@@ -9,17 +10,27 @@ import (
 	"github.com/nanobus/iota/go/rx/flux"
 )
 
-func Flux(ctx context.Context, request frames.RequestPayload, in flux.Flux[payload.Payload], sendFrame func(frames.Frame) error, register func(Stream)) flux.Flux[payload.Payload] {
+// Flux returns the publisher of a request whose responses arrive on a stream.
+// The stream is registered when the request is sent, and removed (if the
+// caller says how) when no more frames are expected for it.
+func Flux(ctx context.Context, request frames.RequestPayload, in flux.Flux[payload.Payload], sendFrame func(frames.Frame) error, register func(Stream), remove ...func(streamID uint32)) flux.Flux[payload.Payload] {
 	p := flux.NewProcessor[payload.Payload]()
 	ss := streamFlux{
 		ctx:       ctx,
 		Processor: p,
 		request:   request,
 		in:        in,
-		sendFrame: sendFrame,
 		register:  register,
+		remove:    remove,
 		first:     true,
+		inDone:    in == nil,
 	}
+	// Frames leave in the order in which they were decided on.
+	ss.frames.open(func(f frames.Frame) {
+		if err := sendFrame(f); err != nil {
+			ss.failed(f, err)
+		}
+	})
 	p.OnSubscribe(flux.OnSubscribe{
 		Request: ss.Request,
 		Cancel:  ss.Cancel,
@@ -31,15 +42,24 @@ type streamFlux struct {
 	ctx context.Context
 	flux.Processor[payload.Payload]
 
-	subscribed bool
-	request    frames.RequestPayload
-	in         flux.Flux[payload.Payload]
-	sendFrame  func(frames.Frame) error
-	register   func(Stream)
-	first      bool
-	complete   bool
+	request  frames.RequestPayload
+	in       flux.Flux[payload.Payload]
+	register func(Stream)
+	remove   []func(streamID uint32)
+	frames   sequence[frames.Frame]
+
+	mu           sync.Mutex
+	subscribed   bool
+	first        bool
+	complete     bool // no more responses are expected
+	inSubscribed bool
+	inDemand     int // received before in was subscribed
+	inCancelled  bool
+	inDone       bool // nothing more is sent
 }
 
+var _ = (Duplex)((*streamFlux)(nil))
+
 func (s *streamFlux) Context() context.Context {
 	return s.ctx
 }
@@ -53,18 +73,106 @@ func (s *streamFlux) OnNext(p payload.Payload) {
 }
 
 func (s *streamFlux) OnComplete() {
-	s.Processor.Complete()
-	s.complete = true
+	if s.end(false, nil) {
+		s.Processor.Complete()
+	}
 }
 
 func (s *streamFlux) OnError(err error) {
-	s.Processor.Error(err)
+	if s.end(true, nil) {
+		s.cancelIn()
+		s.Processor.Error(err)
+	}
+}
+
+// OnCancel means that the responder wants nothing more.
+func (s *streamFlux) OnCancel() {
+	if s.send(nil, true) {
+		s.cancelIn()
+	}
+}
+
+// end ends the responses, and if asked to also what is sent, with a last
+// frame. Only the first call has an effect and returns true.
+func (s *streamFlux) end(both bool, last frames.Frame) bool {
+	s.mu.Lock()
+	if s.complete {
+		s.mu.Unlock()
+		return false
+	}
+	s.complete = true
+	s.inDone = s.inDone || both
+	if last != nil && !s.first {
+		s.frames.put(last)
+	}
+	s.removeEnded()
+	s.mu.Unlock()
+	s.frames.flush()
+	return true
+}
+
+// send sends a frame about in. It returns false if no more is to be sent.
+func (s *streamFlux) send(f frames.Frame, last bool) bool {
+	s.mu.Lock()
+	if s.inDone {
+		s.mu.Unlock()
+		return false
+	}
+	if f != nil {
+		s.frames.put(f)
+	}
+	if last {
+		s.inDone = true
+		s.removeEnded()
+	}
+	s.mu.Unlock()
+	s.frames.flush()
+	return true
+}
+
+func (s *streamFlux) removeEnded() {
+	if s.complete && s.inDone {
+		for _, remove := range s.remove {
+			remove(s.request.StreamID)
+		}
+	}
+}
+
+// cancelIn stops the publisher of what is sent.
+func (s *streamFlux) cancelIn() {
+	s.mu.Lock()
+	s.inCancelled = true
+	subscribed := s.inSubscribed
+	s.mu.Unlock()
+	if subscribed {
+		if sub := s.in.Subscription(); sub != nil {
+			sub.Cancel()
+		}
+	}
+}
+
+// failed is called for a frame that could not be sent.
+func (s *streamFlux) failed(f frames.Frame, err error) {
+	switch f.(type) {
+	case *frames.RequestPayload:
+		s.OnError(err)
+	case *frames.Payload:
+		if s.send(&frames.Error{
+			StreamID: s.request.StreamID,
+			Data:     err.Error(),
+		}, true) {
+			s.cancelIn()
+		}
+	}
 }
 
 func (s *streamFlux) Async() {
 	// If treated like an awaitable and not subscribed,
 	// then subscribe without callbacks.
-	if !s.subscribed {
+	s.mu.Lock()
+	subscribed := s.subscribed
+	s.mu.Unlock()
+	if !subscribed {
 		s.Subscribe(flux.Subscribe[payload.Payload]{})
 	}
 }
@@ -74,61 +182,92 @@ func (s *streamFlux) Notify(fn rx.FnFinally) {
 }
 
 func (s *streamFlux) Request(n int) {
+	s.mu.Lock()
 	if s.complete {
+		s.mu.Unlock()
 		return
 	}
-	if s.first {
-		s.request.InitialN = uint32(n)
+	first := s.first
+	if first {
 		s.first = false
-		s.sendFrame(&s.request)
-
-		if s.in != nil {
-			s.in.Subscribe(flux.Subscribe[payload.Payload]{
-				OnNext: func(p payload.Payload) {
-					s.sendFrame(&frames.Payload{
-						StreamID: s.request.StreamID,
-						Metadata: p.Metadata(),
-						Data:     p.Data(),
-						Next:     true,
-					})
-				},
-				OnComplete: func() {
-					s.sendFrame(&frames.Payload{
-						StreamID: s.request.StreamID,
-						Complete: true,
-					})
-				},
-				OnError: func(err error) {
-					s.sendFrame(&frames.Error{
-						StreamID: s.request.StreamID,
-						Data:     err.Error(),
-					})
-				},
-				NoRequest: true,
-			})
-		}
+		s.request.InitialN = uint32(n)
+		s.register(s)
+		s.frames.put(&s.request)
 	} else {
-		s.sendFrame(&frames.RequestN{
+		s.frames.put(&frames.RequestN{
 			StreamID: s.request.StreamID,
 			N:        uint32(n),
 		})
 	}
+	s.mu.Unlock()
+	s.frames.flush()
+
+	if first && s.in != nil {
+		s.in.Subscribe(flux.Subscribe[payload.Payload]{
+			OnNext: func(p payload.Payload) {
+				s.send(&frames.Payload{
+					StreamID: s.request.StreamID,
+					Metadata: p.Metadata(),
+					Data:     p.Data(),
+					Next:     true,
+				}, false)
+			},
+			OnComplete: func() {
+				s.send(&frames.Payload{
+					StreamID: s.request.StreamID,
+					Complete: true,
+				}, true)
+			},
+			OnError: func(err error) {
+				s.send(&frames.Error{
+					StreamID: s.request.StreamID,
+					Data:     err.Error(),
+				}, true)
+			},
+			NoRequest: true,
+		})
+		s.startIn()
+	}
+}
+
+// startIn passes on what happened to in before it was subscribed.
+func (s *streamFlux) startIn() {
+	s.mu.Lock()
+	s.inSubscribed = true
+	demand, cancelled := s.inDemand, s.inCancelled
+	s.mu.Unlock()
+	if cancelled {
+		s.cancelIn()
+	} else if demand > 0 {
+		s.DoRequest(demand)
+	}
 }
 
 func (s *streamFlux) Cancel() {
-	s.sendFrame(&frames.Cancel{
+	if s.end(true, &frames.Cancel{
 		StreamID: s.request.StreamID,
-	})
+	}) {
+		s.cancelIn()
+	}
 }
 
 func (s *streamFlux) DoRequest(n int) {
-	sub := s.in.Subscription()
-	sub.Request(n)
+	s.mu.Lock()
+	if s.in == nil || !s.inSubscribed {
+		s.inDemand += n
+		s.mu.Unlock()
+		return
+	}
+	s.mu.Unlock()
+	if sub := s.in.Subscription(); sub != nil {
+		sub.Request(n)
+	}
 }
 
 func (s *streamFlux) Subscribe(sub flux.Subscribe[payload.Payload]) flux.Flux[payload.Payload] {
+	s.mu.Lock()
 	s.subscribed = true
-	s.register(s)
+	s.mu.Unlock()
 	s.Processor.Subscribe(sub)
 	return s
 }
diff --git a/proxy/mono.go b/proxy/mono.go
index 793a2a6..46efaaa 100644
--- a/proxy/mono.go
+++ b/proxy/mono.go
@@ -2,6 +2,7 @@ package proxy
 
 import (
 	"context"
+	"sync"
 
 	"github.com/nanobus/iota/go/internal/frames"
 	"github.com/nanobus/iota/go/payload"
@@ -25,10 +26,26 @@ type streamMono struct {
 	ctx context.Context
 	mono.Processor[payload.Payload]
 
+	request   frames.RequestPayload
+	sendFrame func(frames.Frame) error
+	register  func(Stream)
+
+	mu         sync.Mutex
 	subscribed bool
-	request    frames.RequestPayload
-	sendFrame  func(frames.Frame) error
-	register   func(Stream)
+	ended      bool
+	value      payload.Payload
+	err        error
+}
+
+// end keeps how the request ended. Only the first call returns true.
+func (s *streamMono) end(value payload.Payload, err error) bool {
+	s.mu.Lock()
+	defer s.mu.Unlock()
+	if s.ended {
+		return false
+	}
+	s.ended, s.value, s.err = true, value, err
+	return true
 }
 
 func (s *streamMono) Context() context.Context {
@@ -40,21 +57,29 @@ func (s *streamMono) StreamID() uint32 {
 }
 
 func (s *streamMono) OnNext(p payload.Payload) {
-	s.Processor.Success(p)
+	if s.end(p, nil) {
+		s.Processor.Success(p)
+	}
 }
 
 func (s *streamMono) OnComplete() {
-	// Not implemented
+	// Without a value before it, the response is empty.
+	s.OnNext(payload.New(nil))
 }
 
 func (s *streamMono) OnError(err error) {
-	s.Processor.Error(err)
+	if s.end(nil, err) {
+		s.Processor.Error(err)
+	}
 }
 
 func (s *streamMono) Async() {
 	// If treated like an awaitable and not subscribed,
 	// then subscribe without callbacks.
-	if !s.subscribed {
+	s.mu.Lock()
+	subscribed := s.subscribed
+	s.mu.Unlock()
+	if !subscribed {
 		s.Subscribe(mono.Subscribe[payload.Payload]{})
 	}
 }
@@ -64,9 +89,29 @@ func (s *streamMono) Notify(fn rx.FnFinally) {
 }
 
 func (s *streamMono) Subscribe(sub mono.Subscribe[payload.Payload]) mono.Mono[payload.Payload] {
+	s.mu.Lock()
+	first := !s.subscribed
 	s.subscribed = true
-	s.register(s)
+	s.mu.Unlock()
+
+	if first {
+		s.register(s)
+		s.Processor.Subscribe(sub)
+		if err := s.sendFrame(&s.request); err != nil {
+			s.OnError(err)
+		}
+		return s
+	}
+
+	// The request is sent once.
 	s.Processor.Subscribe(sub)
-	s.sendFrame(&s.request)
+	s.mu.Lock()
+	ended, value, err := s.ended, s.value, s.err
+	s.mu.Unlock()
+	if ended && err != nil {
+		s.Processor.Error(err)
+	} else if ended {
+		s.Processor.Success(value)
+	}
 	return s
 }
diff --git a/proxy/responder.go b/proxy/responder.go
new file mode 100644
index 0000000..6637094
--- /dev/null
+++ b/proxy/responder.go
@@ -0,0 +1,229 @@
+package proxy
+
+import (
+	"context"
+	"sync"
+
+	"github.com/nanobus/iota/go/internal/frames"
+	"github.com/nanobus/iota/go/payload"
+	"github.com/nanobus/iota/go/rx"
+	"github.com/nanobus/iota/go/rx/flux"
+)
+
+// Responder is the answering side of an incoming stream or channel.
+type Responder struct {
+	ctx       context.Context
+	streamID  uint32
+	sendFrame func(frames.Frame) error
+	remove    func(streamID uint32)
+	finished  func()
+
+	mu        sync.Mutex
+	sub       rx.Subscription
+	demand    int // received before the publisher was subscribed
+	cancelled bool
+	outDone   bool // nothing more is sent as values
+	inDone    bool // nothing more is received as values
+	in        sequence[func(flux.Sink[payload.Payload])]
+}
+
+var _ = (Duplex)((*Responder)(nil))
+
+// NewResponder returns the answering side of a stream, or of a channel.
+// remove is called when no more frames are expected for the stream,
+// finished once when the request has been answered or was cancelled.
+func NewResponder(ctx context.Context, streamID uint32, channel bool, sendFrame func(frames.Frame) error, remove func(streamID uint32), finished func()) *Responder {
+	return &Responder{
+		ctx:       ctx,
+		streamID:  streamID,
+		sendFrame: sendFrame,
+		remove:    remove,
+		finished:  finished,
+		inDone:    !channel,
+	}
+}
+
+func (r *Responder) Context() context.Context {
+	return r.ctx
+}
+
+func (r *Responder) StreamID() uint32 {
+	return r.streamID
+}
+
+// In returns what the requester of a channel sends.
+func (r *Responder) In() flux.Flux[payload.Payload] {
+	return flux.Create(func(sink flux.Sink[payload.Payload]) {
+		sink.OnSubscribe(flux.OnSubscribe{
+			Request: func(n int) {
+				if r.receiving() {
+					r.sendFrame(&frames.RequestN{
+						StreamID: r.streamID,
+						N:        uint32(n),
+					})
+				}
+			},
+			Cancel: func() {
+				if r.endIn() {
+					r.sendFrame(&frames.Cancel{
+						StreamID: r.streamID,
+					})
+				}
+			},
+		})
+		r.in.open(func(signal func(flux.Sink[payload.Payload])) {
+			signal(sink)
+		})
+	})
+}
+
+// Respond answers with what f publishes.
+func (r *Responder) Respond(f flux.Flux[payload.Payload], initialN uint32) {
+	f.Subscribe(flux.Subscribe[payload.Payload]{
+		OnNext: func(p payload.Payload) {
+			if !r.sending() {
+				return
+			}
+			if err := r.sendFrame(&frames.Payload{
+				StreamID: r.streamID,
+				Metadata: p.Metadata(),
+				Data:     p.Data(),
+				Next:     true,
+			}); err != nil {
+				r.Fail(err.Error())
+				r.stop()
+			}
+		},
+		OnComplete: func() {
+			r.endOut(&frames.Payload{
+				StreamID: r.streamID,
+				Complete: true,
+			})
+		},
+		OnError: func(err error) {
+			r.Fail(err.Error())
+		},
+		NoRequest: true,
+	})
+
+	r.mu.Lock()
+	r.sub = f.Subscription()
+	if r.sub == nil {
+		r.mu.Unlock()
+		return
+	}
+	cancelled, n := r.cancelled, r.demand+int(initialN)
+	r.mu.Unlock()
+	if cancelled {
+		r.stop()
+	} else {
+		r.sub.Request(n)
+	}
+}
+
+// Fail answers with an error.
+func (r *Responder) Fail(message string) {
+	r.mu.Lock()
+	r.inDone = true
+	r.mu.Unlock()
+	r.endOut(&frames.Error{
+		StreamID: r.streamID,
+		Data:     message,
+	})
+}
+
+func (r *Responder) stop() {
+	r.mu.Lock()
+	r.cancelled = true
+	sub := r.sub
+	r.mu.Unlock()
+	if sub != nil {
+		sub.Cancel()
+	}
+}
+
+func (r *Responder) sending() bool {
+	r.mu.Lock()
+	defer r.mu.Unlock()
+	return !r.outDone
+}
+
+func (r *Responder) receiving() bool {
+	r.mu.Lock()
+	defer r.mu.Unlock()
+	return !r.inDone
+}
+
+// endOut sends the last frame, if any. Only the first call has an effect.
+func (r *Responder) endOut(last frames.Frame) {
+	r.mu.Lock()
+	if r.outDone {
+		r.mu.Unlock()
+		return
+	}
+	r.outDone = true
+	ended := r.inDone
+	r.mu.Unlock()
+	if ended {
+		r.remove(r.streamID)
+	}
+	if last != nil {
+		r.sendFrame(last)
+	}
+	r.finished()
+}
+
+// endIn returns true if it ended what the requester sends.
+func (r *Responder) endIn() bool {
+	r.mu.Lock()
+	if r.inDone {
+		r.mu.Unlock()
+		return false
+	}
+	r.inDone = true
+	ended := r.outDone
+	r.mu.Unlock()
+	if ended {
+		r.remove(r.streamID)
+	}
+	return true
+}
+
+func (r *Responder) DoRequest(n int) {
+	r.mu.Lock()
+	sub := r.sub
+	if sub == nil {
+		r.demand += n
+	}
+	r.mu.Unlock()
+	if sub != nil {
+		sub.Request(n)
+	}
+}
+
+func (r *Responder) OnNext(p payload.Payload) {
+	if r.receiving() {
+		r.in.put(func(sink flux.Sink[payload.Payload]) { sink.Next(p) })
+		r.in.flush()
+	}
+}
+
+func (r *Responder) OnComplete() {
+	if r.endIn() {
+		r.in.put(func(sink flux.Sink[payload.Payload]) { sink.Complete() })
+		r.in.flush()
+	}
+}
+
+func (r *Responder) OnError(err error) {
+	if r.endIn() {
+		r.in.put(func(sink flux.Sink[payload.Payload]) { sink.Error(err) })
+		r.in.flush()
+	}
+}
+
+func (r *Responder) OnCancel() {
+	r.endOut(nil)
+	r.stop()
+	r.OnComplete()
+}
diff --git a/proxy/sequence.go b/proxy/sequence.go
new file mode 100644
index 0000000..0032f78
--- /dev/null
+++ b/proxy/sequence.go
@@ -0,0 +1,45 @@
+package proxy
+
+import "sync"
+
+// sequence delivers items one after the other in the order they were put,
+// once it is open. Nothing is locked during a delivery.
+type sequence[T any] struct {
+	mu      sync.Mutex
+	items   []T
+	deliver func(T)
+	busy    bool
+}
+
+// open starts the deliveries.
+func (s *sequence[T]) open(deliver func(T)) {
+	s.mu.Lock()
+	s.deliver = deliver
+	s.mu.Unlock()
+	s.flush()
+}
+
+// put adds an item, which the next flush delivers.
+func (s *sequence[T]) put(item T) {
+	s.mu.Lock()
+	s.items = append(s.items, item)
+	s.mu.Unlock()
+}
+
+// flush delivers what has been put, unless another flush is at it.
+func (s *sequence[T]) flush() {
+	s.mu.Lock()
+	defer s.mu.Unlock()
+	if s.busy || s.deliver == nil {
+		return
+	}
+	s.busy = true
+	for len(s.items) > 0 {
+		item, deliver := s.items[0], s.deliver
+		s.items = s.items[1:]
+		s.mu.Unlock()
+		deliver(item)
+		s.mu.Lock()
+	}
+	s.busy = false
+}
diff --git a/proxy/stream.go b/proxy/stream.go
index 941be46..7911926 100644
--- a/proxy/stream.go
+++ b/proxy/stream.go
@@ -14,6 +14,14 @@ type Stream interface {
 	OnError(err error)
 }
 
+// Duplex is a stream whose directions end separately. It removes itself
+// when both have ended.
+type Duplex interface {
+	Stream
+	DoRequest(n int)
+	OnCancel()
+}
+
 type streamKey struct{}
 
 func FromContext(ctx context.Context) (Stream, bool) {
diff --git a/transport/wasmrs/guest/caller.go b/transport/wasmrs/guest/caller.go
index aae5224..81d14fa 100644
--- a/transport/wasmrs/guest/caller.go
+++ b/transport/wasmrs/guest/caller.go
@@ -64,7 +64,7 @@ func (i *Caller) RequestStream(ctx context.Context, p payload.Payload) flux.Flux
 		Metadata:  p.Metadata(),
 		Data:      p.Data(),
 		InitialN:  rx.RequestMax,
-	}, nil, sendFrame, registerStream)
+	}, nil, sendFrame, registerStream, removeStream)
 }
 
 func (i *Caller) RequestChannel(ctx context.Context, p payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
@@ -75,7 +75,7 @@ func (i *Caller) RequestChannel(ctx context.Context, p payload.Payload, in flux.
 		Metadata:  p.Metadata(),
 		Data:      p.Data(),
 		InitialN:  rx.RequestMax,
-	}, in, sendFrame, registerStream)
+	}, in, sendFrame, registerStream, removeStream)
 }
 
 func (i *Caller) getNextStreamID() uint32 {
diff --git a/transport/wasmrs/guest/guest.go b/transport/wasmrs/guest/guest.go
index 6e7218a..0f2ea95 100644
--- a/transport/wasmrs/guest/guest.go
+++ b/transport/wasmrs/guest/guest.go
@@ -12,8 +12,6 @@ import (
 	"github.com/nanobus/iota/go/invoke"
 	"github.com/nanobus/iota/go/payload"
 	"github.com/nanobus/iota/go/proxy"
-	"github.com/nanobus/iota/go/rx"
-	"github.com/nanobus/iota/go/rx/flux"
 	"github.com/nanobus/iota/go/rx/mono"
 )
 
@@ -106,7 +104,7 @@ func GuestSend(endPos uint32) {
 			var rr frames.RequestPayload
 			if err := rr.Decode(&header, buffer); err != nil {
 				sendFrame(&frames.Error{
-					StreamID: rr.StreamID,
+					StreamID: header.StreamID(),
 					Data:     err.Error(),
 				})
 				continue
@@ -122,7 +120,7 @@ func GuestSend(endPos uint32) {
 			var rr frames.RequestPayload
 			if err := rr.Decode(&header, buffer); err != nil {
 				sendFrame(&frames.Error{
-					StreamID: rr.StreamID,
+					StreamID: header.StreamID(),
 					Data:     err.Error(),
 				})
 				continue
@@ -138,7 +136,7 @@ func GuestSend(endPos uint32) {
 			var rs frames.RequestPayload
 			if err := rs.Decode(&header, buffer); err != nil {
 				sendFrame(&frames.Error{
-					StreamID: rs.StreamID,
+					StreamID: header.StreamID(),
 					Data:     err.Error(),
 				})
 				continue
@@ -148,40 +146,42 @@ func GuestSend(endPos uint32) {
 				continue
 			}
 
-			handleRequestStream(ctx, rs.StreamID, rs.Data, rs.Metadata, rs.InitialN)
+			handleRequestStream(accept(ctx, rs.StreamID, false), rs.Data, rs.Metadata, rs.InitialN)
 
 		case frames.FrameTypeRequestChannel:
 			var rc frames.RequestPayload
 			if err := rc.Decode(&header, buffer); err != nil {
 				sendFrame(&frames.Error{
-					StreamID: rc.StreamID,
+					StreamID: header.StreamID(),
 					Data:     err.Error(),
 				})
-				return
+				continue
 			}
 			if checkFollows(&rc) {
 				// Will be processed under frames.FrameTypePayload
 				continue
 			}
 
-			handleRequestChannel(ctx, rc.StreamID, rc.Data, rc.Metadata, rc.InitialN)
+			handleRequestChannel(accept(ctx, rc.StreamID, true), rc.Data, rc.Metadata, rc.InitialN)
 
 		case frames.FrameTypeRequestN:
 			var rn frames.RequestN
 			if err := rn.Decode(&header, buffer); err != nil {
 				sendFrame(&frames.Error{
-					StreamID: rn.StreamID,
+					StreamID: header.StreamID(),
 					Data:     err.Error(),
 				})
-				return
+				continue
 			}
 
-			s := str.(DoRequest)
-			s.DoRequest(int(rn.N))
+			if s, ok := str.(DoRequest); ok {
+				s.DoRequest(int(rn.N))
+			}
 
 		case frames.FrameTypeCancel:
-			str.OnComplete()
-			removeStream(header.StreamID())
+			if s, ok := str.(proxy.Duplex); ok {
+				s.OnCancel()
+			}
 
 		case frames.FrameTypePayload:
 			var p frames.Payload
@@ -243,7 +243,7 @@ func GuestSend(endPos uint32) {
 
 			if p.Complete {
 				str.OnComplete()
-				removeStream(header.StreamID())
+				endStream(str)
 			}
 
 		case frames.FrameTypeError:
@@ -252,8 +252,7 @@ func GuestSend(endPos uint32) {
 				continue
 			}
 			str.OnError(errors.New(p.Data))
-			str.OnComplete()
-			removeStream(header.StreamID())
+			endStream(str)
 		}
 	}
 }
@@ -274,17 +273,22 @@ func handleRequestResponse(ctx context.Context, streamID uint32, data, metadata
 	}
 
 	p := payload.New(data, metadata[8:])
-	s := requestStream{ctx: ctx, streamID: streamID}
-	ctx = proxy.WithContext(ctx, &s)
+	s := responder(ctx, streamID, false)
+	ctx = proxy.WithContext(ctx, s)
 	handler(ctx, p).Subscribe(mono.Subscribe[payload.Payload]{
 		OnSuccess: func(p payload.Payload) {
-			sendFrame(&frames.Payload{
+			if err := sendFrame(&frames.Payload{
 				StreamID: streamID,
 				Metadata: p.Metadata(),
 				Data:     p.Data(),
 				Next:     true,
 				Complete: true,
-			})
+			}); err != nil {
+				sendFrame(&frames.Error{
+					StreamID: streamID,
+					Data:     err.Error(),
+				})
+			}
 		},
 		OnError: func(err error) {
 			sendFrame(&frames.Error{
@@ -311,121 +315,44 @@ func handleFireAndForget(ctx context.Context, streamID uint32, data, metadata []
 	}
 
 	p := payload.New(data, metadata[8:])
-	s := requestStream{ctx: ctx, streamID: streamID}
-	registerStream(&s)
-	ctx = proxy.WithContext(ctx, &s)
+	s := responder(ctx, streamID, false)
+	ctx = proxy.WithContext(ctx, s)
 	handler(ctx, p)
 }
 
-func handleRequestStream(ctx context.Context, streamID uint32, data, metadata []byte, initialN uint32) {
-	if !checkMetadata(streamID, metadata) {
+func handleRequestStream(s *proxy.Responder, data, metadata []byte, initialN uint32) {
+	if len(metadata) < 8 {
+		s.Fail("Invalid metadata")
 		return
 	}
 
 	operationID := binary.BigEndian.Uint32(metadata)
 	handler := invoke.GetRequestStreamHandler(operationID)
 	if handler == nil {
-		sendFrame(&frames.Error{
-			StreamID: streamID,
-			Data:     "not_found",
-		})
+		s.Fail("not_found")
 		return
 	}
 
 	p := payload.New(data, metadata)
-	s := requestStream{ctx: ctx, streamID: streamID}
-	registerStream(&s) // Need to register for RequestN frames
 	// ctx := stream.WithContext(context.Background(), s)
-	f := handler(ctx, p)
-	f.Subscribe(flux.Subscribe[payload.Payload]{
-		OnNext: func(p payload.Payload) {
-			sendFrame(&frames.Payload{
-				StreamID: streamID,
-				Metadata: p.Metadata(),
-				Data:     p.Data(),
-				Next:     true,
-			})
-		},
-		OnComplete: func() {
-			sendFrame(&frames.Payload{
-				StreamID: streamID,
-				Complete: true,
-			})
-		},
-		OnError: func(err error) {
-			sendFrame(&frames.Error{
-				StreamID: streamID,
-				Data:     err.Error(),
-			})
-		},
-		NoRequest: true,
-	})
-	sub := f.Subscription()
-	s.sub = sub
-	s.Request(int(initialN))
+	s.Respond(handler(s.Context(), p), initialN)
 }
 
-func handleRequestChannel(ctx context.Context, streamID uint32, data, metadata []byte, initialN uint32) {
-	if !checkMetadata(streamID, metadata) {
+func handleRequestChannel(s *proxy.Responder, data, metadata []byte, initialN uint32) {
+	if len(metadata) < 8 {
+		s.Fail("Invalid metadata")
 		return
 	}
 
 	operationID := binary.BigEndian.Uint32(metadata)
 	handler := invoke.GetRequestChannelHandler(operationID)
 	if handler == nil {
-		sendFrame(&frames.Error{
-			StreamID: streamID,
-			Data:     "not_found",
-		})
+		s.Fail("not_found")
 		return
 	}
 
 	p := payload.New(data, metadata)
-	s := requestStream{streamID: streamID}
-	registerStream(&s) // Need to register for RequestN frames
-	in := flux.Create(func(sink flux.Sink[payload.Payload]) {
-		s.sink = sink
-		sink.OnSubscribe(flux.OnSubscribe{
-			Request: func(n int) {
-				sendFrame(&frames.RequestN{
-					StreamID: streamID,
-					N:        uint32(n),
-				})
-			},
-			Cancel: func() {
-				sendFrame(&frames.Cancel{
-					StreamID: streamID,
-				})
-			},
-		})
-	})
-	f := handler(ctx, p, in)
-	f.Subscribe(flux.Subscribe[payload.Payload]{
-		OnNext: func(p payload.Payload) {
-			sendFrame(&frames.Payload{
-				StreamID: streamID,
-				Metadata: p.Metadata(),
-				Data:     p.Data(),
-				Next:     true,
-			})
-		},
-		OnComplete: func() {
-			sendFrame(&frames.Payload{
-				StreamID: streamID,
-				Complete: true,
-			})
-		},
-		OnError: func(err error) {
-			sendFrame(&frames.Error{
-				StreamID: streamID,
-				Data:     err.Error(),
-			})
-		},
-		NoRequest: true,
-	})
-	sub := f.Subscription()
-	s.sub = sub
-	s.Request(int(initialN))
+	s.Respond(handler(s.Context(), p, s.In()), initialN)
 }
 
 func checkMetadata(streamID uint32, metadata []byte) bool {
@@ -454,6 +381,24 @@ func checkFollows(requestFrame *frames.RequestPayload) bool {
 	return false
 }
 
+// accept registers an incoming stream, before any frame that follows it.
+func accept(ctx context.Context, streamID uint32, channel bool) *proxy.Responder {
+	s := responder(ctx, streamID, channel)
+	registerStream(s)
+	return s
+}
+
+func responder(ctx context.Context, streamID uint32, channel bool) *proxy.Responder {
+	return proxy.NewResponder(ctx, streamID, channel, sendFrame, removeStream, func() {})
+}
+
+// endStream removes a stream that ends with its response.
+func endStream(s proxy.Stream) {
+	if _, ok := s.(proxy.Duplex); !ok {
+		removeStream(s.StreamID())
+	}
+}
+
 func registerStream(s proxy.Stream) {
 	if s.StreamID()&1 == 1 {
 		guestStreams.Add(s)
@@ -536,44 +481,6 @@ type DoRequest interface {
 	DoRequest(n int)
 }
 
-type requestStream struct {
-	ctx      context.Context
-	streamID uint32
-	flux.Sink[payload.Payload]
-	sub  rx.Subscription
-	sink flux.Sink[payload.Payload]
-}
-
-var _ = (proxy.Stream)((*requestStream)(nil))
-
-func (r *requestStream) Context() context.Context {
-	return r.ctx
-}
-
-func (r *requestStream) StreamID() uint32 {
-	return r.streamID
-}
-
-func (r *requestStream) Request(n int) {
-	r.sub.Request(n)
-}
-
-func (r *requestStream) DoRequest(n int) {
-	r.sub.Request(n)
-}
-
-func (r *requestStream) OnNext(p payload.Payload) {
-	r.sink.Next(p)
-}
-
-func (r *requestStream) OnComplete() {
-	r.sink.Complete()
-}
-
-func (r *requestStream) OnError(err error) {
-	r.sink.Error(err)
-}
-
 //go:inline
 func bytesToPointer(s []byte) uintptr {
 	//nolint
diff --git a/transport/wasmrs/host/caller.go b/transport/wasmrs/host/caller.go
index 08062d7..191a684 100644
--- a/transport/wasmrs/host/caller.go
+++ b/transport/wasmrs/host/caller.go
@@ -57,7 +57,7 @@ func (i *Instance) RequestStream(ctx context.Context, p payload.Payload) flux.Fl
 		Metadata:  p.Metadata(),
 		Data:      p.Data(),
 		InitialN:  rx.RequestMax,
-	}, nil, i.SendFrame, i.registerStream)
+	}, nil, i.SendFrame, i.registerStream, i.removeStream)
 }
 
 func (i *Instance) RequestChannel(ctx context.Context, p payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
@@ -67,7 +67,7 @@ func (i *Instance) RequestChannel(ctx context.Context, p payload.Payload, in flu
 		Metadata:  p.Metadata(),
 		Data:      p.Data(),
 		InitialN:  rx.RequestMax,
-	}, in, i.SendFrame, i.registerStream)
+	}, in, i.SendFrame, i.registerStream, i.removeStream)
 }
 
 func (i *Instance) getNextStreamID() uint32 {
diff --git a/transport/wasmrs/host/instance.go b/transport/wasmrs/host/instance.go
index 93dd935..33f41dd 100644
--- a/transport/wasmrs/host/instance.go
+++ b/transport/wasmrs/host/instance.go
@@ -16,8 +16,6 @@ import (
 	"github.com/nanobus/iota/go/operations"
 	"github.com/nanobus/iota/go/payload"
 	"github.com/nanobus/iota/go/proxy"
-	"github.com/nanobus/iota/go/rx"
-	"github.com/nanobus/iota/go/rx/flux"
 	"github.com/nanobus/iota/go/rx/mono"
 )
 
@@ -148,6 +146,34 @@ func (i *Instance) getStream(streamID uint32) (proxy.Stream, bool) {
 	}
 }
 
+// accept registers an incoming stream, before any frame that follows it.
+func (i *Instance) accept(ctx context.Context, streamID uint32, channel bool) *proxy.Responder {
+	s := proxy.NewResponder(ctx, streamID, channel, i.SendFrame, i.removeStream, i.reduceActiveRequests)
+	i.registerStream(s)
+	return s
+}
+
+// endStream removes a stream that ends with its response.
+func (i *Instance) endStream(s proxy.Stream) {
+	if _, ok := s.(proxy.Duplex); !ok {
+		i.removeStream(s.StreamID())
+	}
+}
+
+// parentContext returns the context of the request during which another is made.
+func (i *Instance) parentContext(ctx context.Context, metadata []byte) context.Context {
+	if len(metadata) < 8 {
+		return ctx
+	}
+	parentStreamID := binary.BigEndian.Uint32(metadata[4:])
+	if parentStreamID != 0 {
+		if stream, ok := i.getStream(parentStreamID); ok {
+			return stream.Context()
+		}
+	}
+	return ctx
+}
+
 func (i *Instance) SendFrame(f frames.Frame) error {
 	// if frag, ok := f.(frames.Fragmentable); ok {
 	// 	if frames := frag.Fragment(i.maxFrameSize); frames != nil {
@@ -243,7 +269,7 @@ func (i *Instance) recvOne(data []byte) {
 		var rr frames.RequestPayload
 		if err := rr.Decode(&header, data); err != nil {
 			i.SendFrame(&frames.Error{
-				StreamID: rr.StreamID,
+				StreamID: header.StreamID(),
 				Data:     err.Error(),
 			})
 			return
@@ -254,13 +280,14 @@ func (i *Instance) recvOne(data []byte) {
 		}
 
 		i.activeRequests.Add(1)
+		ctx = i.parentContext(ctx, rr.Metadata)
 		go i.handleRequestResponse(ctx, rr.StreamID, rr.Data, rr.Metadata)
 
 	case frames.FrameTypeRequestFNF:
 		var rr frames.RequestPayload
 		if err := rr.Decode(&header, data); err != nil {
 			i.SendFrame(&frames.Error{
-				StreamID: rr.StreamID,
+				StreamID: header.StreamID(),
 				Data:     err.Error(),
 			})
 			return
@@ -270,13 +297,14 @@ func (i *Instance) recvOne(data []byte) {
 			return
 		}
 
+		ctx = i.parentContext(ctx, rr.Metadata)
 		go i.handleFireAndForget(ctx, rr.StreamID, rr.Data, rr.Metadata)
 
 	case frames.FrameTypeRequestStream:
 		var rs frames.RequestPayload
 		if err := rs.Decode(&header, data); err != nil {
 			i.SendFrame(&frames.Error{
-				StreamID: rs.StreamID,
+				StreamID: header.StreamID(),
 				Data:     err.Error(),
 			})
 			return
@@ -287,13 +315,14 @@ func (i *Instance) recvOne(data []byte) {
 		}
 
 		i.activeRequests.Add(1)
-		go i.handleRequestStream(ctx, rs.StreamID, rs.Data, rs.Metadata, rs.InitialN)
+		ctx = i.parentContext(ctx, rs.Metadata)
+		go i.handleRequestStream(i.accept(ctx, rs.StreamID, false), rs.Data, rs.Metadata, rs.InitialN)
 
 	case frames.FrameTypeRequestChannel:
 		var rc frames.RequestPayload
 		if err := rc.Decode(&header, data); err != nil {
 			i.SendFrame(&frames.Error{
-				StreamID: rc.StreamID,
+				StreamID: header.StreamID(),
 				Data:     err.Error(),
 			})
 			return
@@ -304,24 +333,27 @@ func (i *Instance) recvOne(data []byte) {
 		}
 
 		i.activeRequests.Add(1)
-		go i.handleRequestChannel(ctx, rc.StreamID, rc.Data, rc.Metadata, rc.InitialN)
+		ctx = i.parentContext(ctx, rc.Metadata)
+		go i.handleRequestChannel(i.accept(ctx, rc.StreamID, true), rc.Data, rc.Metadata, rc.InitialN)
 
 	case frames.FrameTypeRequestN:
 		var rn frames.RequestN
 		if err := rn.Decode(&header, data); err != nil {
 			i.SendFrame(&frames.Error{
-				StreamID: rn.StreamID,
+				StreamID: header.StreamID(),
 				Data:     err.Error(),
 			})
 			return
 		}
 
-		s := str.(DoRequest)
-		go s.DoRequest(int(rn.N))
+		if s, ok := str.(DoRequest); ok {
+			go s.DoRequest(int(rn.N))
+		}
 
 	case frames.FrameTypeCancel:
-		str.OnComplete()
-		i.removeStream(header.StreamID())
+		if s, ok := str.(proxy.Duplex); ok {
+			s.OnCancel()
+		}
 
 	case frames.FrameTypePayload:
 		var p frames.Payload
@@ -380,7 +412,7 @@ func (i *Instance) recvOne(data []byte) {
 
 		if p.Complete {
 			str.OnComplete()
-			i.removeStream(header.StreamID())
+			i.endStream(str)
 		}
 
 	case frames.FrameTypeError:
@@ -389,23 +421,17 @@ func (i *Instance) recvOne(data []byte) {
 			return
 		}
 		str.OnError(errors.New(p.Data))
-		str.OnComplete()
-		i.removeStream(header.StreamID())
+		i.endStream(str)
 	}
 }
 
 func (i *Instance) handleRequestResponse(ctx context.Context, streamID uint32, data, metadata []byte) {
 	if !i.checkMetadata(streamID, metadata) {
+		i.reduceActiveRequests()
 		return
 	}
 
 	operationID := binary.BigEndian.Uint32(metadata)
-	parentStreamID := binary.BigEndian.Uint32(metadata[4:])
-	if parentStreamID != 0 {
-		if stream, ok := i.getStream(parentStreamID); ok {
-			ctx = stream.Context()
-		}
-	}
 	handler := i.getRequestResponseHandler(operationID)
 	if handler == nil {
 		i.SendFrame(&frames.Error{
@@ -418,13 +444,18 @@ func (i *Instance) handleRequestResponse(ctx context.Context, streamID uint32, d
 	p := payload.New(data, metadata)
 	handler(ctx, p).Subscribe(mono.Subscribe[payload.Payload]{
 		OnSuccess: func(p payload.Payload) {
-			i.SendFrame(&frames.Payload{
+			if err := i.SendFrame(&frames.Payload{
 				StreamID: streamID,
 				Metadata: p.Metadata(),
 				Data:     p.Data(),
 				Next:     true,
 				Complete: true,
-			})
+			}); err != nil {
+				i.SendFrame(&frames.Error{
+					StreamID: streamID,
+					Data:     err.Error(),
+				})
+			}
 			i.reduceActiveRequests()
 		},
 		OnError: func(err error) {
@@ -443,12 +474,6 @@ func (i *Instance) handleFireAndForget(ctx context.Context, streamID uint32, dat
 	}
 
 	operationID := binary.BigEndian.Uint32(metadata)
-	parentStreamID := binary.BigEndian.Uint32(metadata[4:])
-	if parentStreamID != 0 {
-		if stream, ok := i.getStream(parentStreamID); ok {
-			ctx = stream.Context()
-		}
-	}
 	handler := i.getFireAndForgetHandler(operationID)
 	if handler == nil {
 		i.SendFrame(&frames.Error{
@@ -461,131 +486,38 @@ func (i *Instance) handleFireAndForget(ctx context.Context, streamID uint32, dat
 	handler(ctx, p)
 }
 
-func (i *Instance) handleRequestStream(ctx context.Context, streamID uint32, data, metadata []byte, initialN uint32) {
-	if !i.checkMetadata(streamID, metadata) {
+func (i *Instance) handleRequestStream(s *proxy.Responder, data, metadata []byte, initialN uint32) {
+	if len(metadata) < 8 {
+		s.Fail("Invalid metadata")
 		return
 	}
 
 	operationID := binary.BigEndian.Uint32(metadata)
-	parentStreamID := binary.BigEndian.Uint32(metadata[4:])
-	if parentStreamID != 0 {
-		if stream, ok := i.getStream(parentStreamID); ok {
-			ctx = stream.Context()
-		}
-	}
 	handlerRS := i.getRequestStreamHandler(operationID)
 	if handlerRS == nil {
-		i.SendFrame(&frames.Error{
-			StreamID: streamID,
-			Data:     "not_found",
-		})
+		s.Fail("not_found")
 		return
 	}
 
 	p := payload.New(data, metadata)
-	s := requestStream{ctx: ctx, streamID: streamID}
-	f := handlerRS(ctx, p)
-	f.Subscribe(flux.Subscribe[payload.Payload]{
-		OnNext: func(p payload.Payload) {
-			i.SendFrame(&frames.Payload{
-				StreamID: streamID,
-				Metadata: p.Metadata(),
-				Data:     p.Data(),
-				Next:     true,
-			})
-		},
-		OnComplete: func() {
-			i.SendFrame(&frames.Payload{
-				StreamID: streamID,
-				Complete: true,
-			})
-			i.reduceActiveRequests()
-		},
-		OnError: func(err error) {
-			i.SendFrame(&frames.Error{
-				StreamID: streamID,
-				Data:     err.Error(),
-			})
-			i.reduceActiveRequests()
-		},
-		NoRequest: true,
-	})
-	sub := f.Subscription()
-	s.sub = sub
-	s.Request(int(initialN))
+	s.Respond(handlerRS(s.Context(), p), initialN)
 }
 
-func (i *Instance) handleRequestChannel(ctx context.Context, streamID uint32, data, metadata []byte, initialN uint32) {
-	if !i.checkMetadata(streamID, metadata) {
+func (i *Instance) handleRequestChannel(s *proxy.Responder, data, metadata []byte, initialN uint32) {
+	if len(metadata) < 8 {
+		s.Fail("Invalid metadata")
 		return
 	}
 
 	operationID := binary.BigEndian.Uint32(metadata)
-	parentStreamID := binary.BigEndian.Uint32(metadata[4:])
-	if parentStreamID != 0 {
-		if stream, ok := i.getStream(parentStreamID); ok {
-			ctx = stream.Context()
-		}
-	}
 	handlerRC := i.getRequestChannelHandler(operationID)
 	if handlerRC == nil {
-		i.SendFrame(&frames.Error{
-			StreamID: streamID,
-			Data:     "not_found",
-		})
-		i.reduceActiveRequests()
+		s.Fail("not_found")
 		return
 	}
 
 	p := payload.New(data, metadata)
-	s := requestStream{streamID: streamID}
-	i.registerStream(&s) // Need to register for RequestN frames
-	in := flux.Create(func(sink flux.Sink[payload.Payload]) {
-		s.sink = sink
-		sink.OnSubscribe(flux.OnSubscribe{
-			Request: func(n int) {
-				i.SendFrame(&frames.RequestN{
-					StreamID: streamID,
-					N:        uint32(n),
-				})
-			},
-			Cancel: func() {
-				i.SendFrame(&frames.Cancel{
-					StreamID: streamID,
-				})
-				i.reduceActiveRequests()
-			},
-		})
-	})
-	f := handlerRC(ctx, p, in)
-	f.Subscribe(flux.Subscribe[payload.Payload]{
-		OnNext: func(p payload.Payload) {
-			i.SendFrame(&frames.Payload{
-				StreamID: streamID,
-				Metadata: p.Metadata(),
-				Data:     p.Data(),
-				Next:     true,
-			})
-		},
-		OnComplete: func() {
-			i.SendFrame(&frames.Payload{
-				StreamID: streamID,
-				Complete: true,
-			})
-			i.reduceActiveRequests()
-		},
-		OnError: func(err error) {
-			i.SendFrame(&frames.Error{
-				StreamID: streamID,
-				Data:     err.Error(),
-			})
-			i.reduceActiveRequests()
-		},
-		NoRequest: true,
-	})
-	sub := f.Subscription()
-	s.sub = sub
-	s.Request(int(initialN))
+	s.Respond(handlerRC(s.Context(), p, s.In()), initialN)
 }
 
 func (i *Instance) SetRequestResponseHandler(index uint32, handler invoke.RequestResponseHandler) {
@@ -673,41 +605,3 @@ func (i *Instance) checkFollows(requestFrame *frames.RequestPayload) bool {
 type DoRequest interface {
 	DoRequest(n int)
 }
-
-type requestStream struct {
-	ctx      context.Context
-	streamID uint32
-	flux.Sink[payload.Payload]
-	sub  rx.Subscription
-	sink flux.Sink[payload.Payload]
-}
-
-var _ = (proxy.Stream)((*requestStream)(nil))
-
-func (r *requestStream) Context() context.Context {
-	return r.ctx
-}
-
-func (r *requestStream) StreamID() uint32 {
-	return r.streamID
-}
-
-func (r *requestStream) Request(n int) {
-	r.sub.Request(n)
-}
-
-func (r *requestStream) DoRequest(n int) {
-	r.sub.Request(n)
-}
-
-func (r *requestStream) OnNext(p payload.Payload) {
-	r.sink.Next(p)
-}
-
-func (r *requestStream) OnComplete() {
-	r.sink.Complete()
-}
-
-func (r *requestStream) OnError(err error) {
-	r.sink.Error(err)
-}
-- 
2.43.0


From 78a28b52bc1f939f75f962a6c91ad89b25cf127f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:44 +0000
Subject: [PATCH 16/31] fix: module host counts requests exactly, never blocks
 or crashes on close, refuses bad hand-overs and frames that do not fit

---
 transport/wasmrs/guest/guest.go   | 22 ++++++++--
 transport/wasmrs/host/instance.go | 73 ++++++++++++++++++++++++-------
 2 files changed, 75 insertions(+), 20 deletions(-)

diff --git a/transport/wasmrs/guest/guest.go b/transport/wasmrs/guest/guest.go
index 0f2ea95..134c760 100644
--- a/transport/wasmrs/guest/guest.go
+++ b/transport/wasmrs/guest/guest.go
@@ -32,6 +32,8 @@ var (
 	fragmentedPayloads map[uint32]fragmentedPayload
 )
 
+var errTooLarge = errors.New("frame does not fit the buffer")
+
 type fragmentedPayload struct {
 	frameType frames.FrameType
 	initialN  uint32
@@ -70,16 +72,25 @@ func GuestSend(endPos uint32) {
 	var lengthBuf [4]byte
 	curPos := uint32(0)
 	buf := guestBuffer
+	if endPos < uint32(len(buf)) {
+		buf = buf[:endPos]
+	}
 
-	for curPos < endPos {
+	for curPos < endPos && len(buf) >= 3 {
 		copy(lengthBuf[1:], buf)
 		frameLen := binary.BigEndian.Uint32(lengthBuf[:])
+		if uint32(len(buf)-3) < frameLen {
+			return // The hand-over is truncated.
+		}
 		frameBuf := make([]byte, frameLen)
 		copy(frameBuf, buf[3:])
 		curPos += 3 + frameLen
 		buf = buf[3+frameLen:]
 
 		// lengthPos = 1 // Reset for next frame
+		if frameLen < frames.FrameHeaderLen {
+			continue // Not a frame.
+		}
 		header := frames.ParseFrameHeader(frameBuf)
 		buffer := frameBuf[frames.FrameHeaderLen:]
 
@@ -464,17 +475,20 @@ func sendFrame(f frames.Frame) error {
 	// } else {
 	// 	doSendFrame(f)
 	// }
-	doSendFrame(f)
-	return nil
+	return doSendFrame(f)
 }
 
-func doSendFrame(f frames.Frame) {
+func doSendFrame(f frames.Frame) error {
 	byteLength := f.Size()
+	if uint32(len(hostBuffer)) < byteLength+3 {
+		return errTooLarge
+	}
 	var length [4]byte
 	binary.BigEndian.PutUint32(length[0:4], byteLength)
 	copy(hostBuffer[0:3], length[1:4])
 	f.Encode(hostBuffer[3:])
 	hostSend(byteLength + 3)
+	return nil
 }
 
 type DoRequest interface {
diff --git a/transport/wasmrs/host/instance.go b/transport/wasmrs/host/instance.go
index 33f41dd..27a6388 100644
--- a/transport/wasmrs/host/instance.go
+++ b/transport/wasmrs/host/instance.go
@@ -10,6 +10,7 @@ import (
 
 	"github.com/tetratelabs/wazero/api"
 
+	"github.com/nanobus/iota/go/internal/buffer"
 	"github.com/nanobus/iota/go/internal/frames"
 	"github.com/nanobus/iota/go/internal/socket"
 	"github.com/nanobus/iota/go/invoke"
@@ -22,8 +23,8 @@ import (
 type Instance struct {
 	ctx       context.Context
 	m         api.Module
-	sendCh    chan frames.Frame
-	recvCh    chan []byte
+	sendCh    *buffer.Unbounded[frames.Frame]
+	recvCh    *buffer.Unbounded[[]byte]
 	sendFn    api.Function
 	sendPtr   uint32
 	sendSize  uint32
@@ -42,6 +43,7 @@ type Instance struct {
 	closing        atomic.Bool
 	closed         chan struct{}
 	once           sync.Once
+	idle           sync.Once
 
 	maxFrameSize       uint32
 	fragmentedPayloads map[uint32]fragmentedPayload
@@ -62,6 +64,11 @@ type fragmentedPayload struct {
 
 type instanceKey struct{}
 
+var (
+	errClosed   = errors.New("instance is closed")
+	errTooLarge = errors.New("frame does not fit the buffer")
+)
+
 func NewInstance(ctx context.Context, m api.Module) (*Instance, error) {
 	init := m.ExportedFunction("__wasmrs_init")
 	if init == nil {
@@ -74,8 +81,8 @@ func NewInstance(ctx context.Context, m api.Module) (*Instance, error) {
 	i := &Instance{
 		ctx:                ctx,
 		m:                  m,
-		sendCh:             make(chan frames.Frame, 100),
-		recvCh:             make(chan []byte, 100),
+		sendCh:             buffer.NewUnbounded[frames.Frame](),
+		recvCh:             buffer.NewUnbounded[[]byte](),
 		sendFn:             send,
 		maxFrameSize:       1024 * 1024,
 		fragmentedPayloads: make(map[uint32]fragmentedPayload),
@@ -109,8 +116,8 @@ func (i *Instance) Close() error {
 			<-i.closed
 		}
 
-		close(i.sendCh)
-		close(i.recvCh)
+		i.sendCh.Dispose()
+		i.recvCh.Dispose()
 	})
 
 	return nil
@@ -118,7 +125,7 @@ func (i *Instance) Close() error {
 
 func (i *Instance) reduceActiveRequests() {
 	if i.activeRequests.Add(-1) <= 0 && i.closing.Load() {
-		close(i.closed)
+		i.idle.Do(func() { close(i.closed) })
 	}
 }
 
@@ -186,7 +193,12 @@ func (i *Instance) SendFrame(f frames.Frame) error {
 	// } else {
 	// 	i.sendCh <- f
 	// }
-	i.sendCh <- f
+	if f.Size()+3 > i.sendSize {
+		return errTooLarge
+	}
+	if !i.sendCh.Put(f) {
+		return errClosed
+	}
 	return nil
 }
 
@@ -199,9 +211,13 @@ func (i *Instance) sendLoop() {
 	var lengthBytes [4]byte
 	ctx := context.WithValue(i.ctx, instanceKey{}, i)
 
-	for f := range i.sendCh {
+	for f := range i.sendCh.Get() {
+		i.sendCh.Load()
 		mem := i.m.Memory()
-		buf, _ := mem.Read(i.sendPtr, i.sendSize)
+		buf, ok := mem.Read(i.sendPtr, i.sendSize)
+		if !ok {
+			continue
+		}
 		byteCount := f.Size()
 
 		// Encode length and frame data.
@@ -226,26 +242,48 @@ func (i *Instance) opList(ctx context.Context, opPtr uint32, opSize uint32) {
 func (i *Instance) hostSend(ctx context.Context, recvPos uint32) {
 	buffer, _ := i.m.Memory().Read(i.recvPtr, recvPos)
 
-	for len(buffer) > 0 {
+	for len(buffer) >= 3 {
 		var length [4]byte
 		copy(length[1:4], buffer[0:3])
 		buffer = buffer[3:]
 		frameLength := binary.BigEndian.Uint32(length[0:4])
+		if uint32(len(buffer)) < frameLength {
+			return // The hand-over is truncated.
+		}
 		buf := make([]byte, int(frameLength))
 		copy(buf, buffer)
-		i.recvCh <- buf
+		i.receive(buf)
 		buffer = buffer[frameLength:]
 	}
 }
 
+// receive queues a frame. A request is under way from here on.
+func (i *Instance) receive(buf []byte) {
+	counted := false
+	if len(buf) >= frames.FrameHeaderLen {
+		switch frames.ParseFrameHeader(buf).Type() {
+		case frames.FrameTypeRequestResponse, frames.FrameTypeRequestStream, frames.FrameTypeRequestChannel:
+			counted = true
+			i.activeRequests.Add(1)
+		}
+	}
+	if !i.recvCh.Put(buf) && counted {
+		i.reduceActiveRequests()
+	}
+}
+
 func (i *Instance) recvLoop() {
-	for buf := range i.recvCh {
+	for buf := range i.recvCh.Get() {
+		i.recvCh.Load()
 		i.recvOne(buf)
 	}
 }
 
 func (i *Instance) recvOne(data []byte) {
 	ctx := context.Background()
+	if len(data) < frames.FrameHeaderLen {
+		return // Not a frame.
+	}
 	header := frames.ParseFrameHeader(data)
 	data = data[frames.FrameHeaderLen:]
 
@@ -272,14 +310,15 @@ func (i *Instance) recvOne(data []byte) {
 				StreamID: header.StreamID(),
 				Data:     err.Error(),
 			})
+			i.reduceActiveRequests()
 			return
 		}
 		if i.checkFollows(&rr) {
 			// Will be processed under frames.FrameTypePayload
+			i.reduceActiveRequests()
 			return
 		}
 
-		i.activeRequests.Add(1)
 		ctx = i.parentContext(ctx, rr.Metadata)
 		go i.handleRequestResponse(ctx, rr.StreamID, rr.Data, rr.Metadata)
 
@@ -307,14 +346,15 @@ func (i *Instance) recvOne(data []byte) {
 				StreamID: header.StreamID(),
 				Data:     err.Error(),
 			})
+			i.reduceActiveRequests()
 			return
 		}
 		if i.checkFollows(&rs) {
 			// Will be processed under frames.FrameTypePayload
+			i.reduceActiveRequests()
 			return
 		}
 
-		i.activeRequests.Add(1)
 		ctx = i.parentContext(ctx, rs.Metadata)
 		go i.handleRequestStream(i.accept(ctx, rs.StreamID, false), rs.Data, rs.Metadata, rs.InitialN)
 
@@ -325,14 +365,15 @@ func (i *Instance) recvOne(data []byte) {
 				StreamID: header.StreamID(),
 				Data:     err.Error(),
 			})
+			i.reduceActiveRequests()
 			return
 		}
 		if i.checkFollows(&rc) {
 			// Will be processed under frames.FrameTypePayload
+			i.reduceActiveRequests()
 			return
 		}
 
-		i.activeRequests.Add(1)
 		ctx = i.parentContext(ctx, rc.Metadata)
 		go i.handleRequestChannel(i.accept(ctx, rc.StreamID, true), rc.Data, rc.Metadata, rc.InitialN)
 
-- 
2.43.0


From 7e22aaca8db93e6837b16739b0a25a8f8961a43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:36 +0000
Subject: [PATCH 17/31] fix: demand for a channel's input never follows its
 cancel

---
 proxy/responder.go | 49 +++++++++++++++++++++++++++++++---------------
 1 file changed, 33 insertions(+), 16 deletions(-)

diff --git a/proxy/responder.go b/proxy/responder.go
index 6637094..788250a 100644
--- a/proxy/responder.go
+++ b/proxy/responder.go
@@ -25,6 +25,7 @@ type Responder struct {
 	outDone   bool // nothing more is sent as values
 	inDone    bool // nothing more is received as values
 	in        sequence[func(flux.Sink[payload.Payload])]
+	asked     sequence[frames.Frame] // demand and cancel for in
 }
 
 var _ = (Duplex)((*Responder)(nil))
@@ -33,7 +34,7 @@ var _ = (Duplex)((*Responder)(nil))
 // remove is called when no more frames are expected for the stream,
 // finished once when the request has been answered or was cancelled.
 func NewResponder(ctx context.Context, streamID uint32, channel bool, sendFrame func(frames.Frame) error, remove func(streamID uint32), finished func()) *Responder {
-	return &Responder{
+	r := Responder{
 		ctx:       ctx,
 		streamID:  streamID,
 		sendFrame: sendFrame,
@@ -41,6 +42,11 @@ func NewResponder(ctx context.Context, streamID uint32, channel bool, sendFrame
 		finished:  finished,
 		inDone:    !channel,
 	}
+	// Frames leave in the order in which they were decided on.
+	r.asked.open(func(f frames.Frame) {
+		r.sendFrame(f)
+	})
+	return &r
 }
 
 func (r *Responder) Context() context.Context {
@@ -56,19 +62,15 @@ func (r *Responder) In() flux.Flux[payload.Payload] {
 	return flux.Create(func(sink flux.Sink[payload.Payload]) {
 		sink.OnSubscribe(flux.OnSubscribe{
 			Request: func(n int) {
-				if r.receiving() {
-					r.sendFrame(&frames.RequestN{
-						StreamID: r.streamID,
-						N:        uint32(n),
-					})
-				}
+				r.ask(&frames.RequestN{
+					StreamID: r.streamID,
+					N:        uint32(n),
+				})
 			},
 			Cancel: func() {
-				if r.endIn() {
-					r.sendFrame(&frames.Cancel{
-						StreamID: r.streamID,
-					})
-				}
+				r.endIn(&frames.Cancel{
+					StreamID: r.streamID,
+				})
 			},
 		})
 		r.in.open(func(signal func(flux.Sink[payload.Payload])) {
@@ -173,19 +175,34 @@ func (r *Responder) endOut(last frames.Frame) {
 	r.finished()
 }
 
-// endIn returns true if it ended what the requester sends.
-func (r *Responder) endIn() bool {
+// ask sends a frame about what the requester sends, unless that has ended.
+func (r *Responder) ask(f frames.Frame) {
+	r.mu.Lock()
+	if !r.inDone {
+		r.asked.put(f)
+	}
+	r.mu.Unlock()
+	r.asked.flush()
+}
+
+// endIn returns true if it ended what the requester sends, and then sends
+// the last frame about it, if any.
+func (r *Responder) endIn(last frames.Frame) bool {
 	r.mu.Lock()
 	if r.inDone {
 		r.mu.Unlock()
 		return false
 	}
 	r.inDone = true
+	if last != nil {
+		r.asked.put(last)
+	}
 	ended := r.outDone
 	r.mu.Unlock()
 	if ended {
 		r.remove(r.streamID)
 	}
+	r.asked.flush()
 	return true
 }
 
@@ -209,14 +226,14 @@ func (r *Responder) OnNext(p payload.Payload) {
 }
 
 func (r *Responder) OnComplete() {
-	if r.endIn() {
+	if r.endIn(nil) {
 		r.in.put(func(sink flux.Sink[payload.Payload]) { sink.Complete() })
 		r.in.flush()
 	}
 }
 
 func (r *Responder) OnError(err error) {
-	if r.endIn() {
+	if r.endIn(nil) {
 		r.in.put(func(sink flux.Sink[payload.Payload]) { sink.Error(err) })
 		r.in.flush()
 	}
-- 
2.43.0


From fe1b26d04cfd9a2882dfa06cfaadd9658b1a46c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:09 +0000
Subject: [PATCH 18/31] fix: msgpack writes nil once, sizes 255-byte arrays
 right and writes dynamic times

---
 msgpack/encoder.go | 11 ++++++++---
 msgpack/sizer.go   |  5 +----
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/msgpack/encoder.go b/msgpack/encoder.go
index 634bf9c..5184784 100644
--- a/msgpack/encoder.go
+++ b/msgpack/encoder.go
@@ -315,9 +315,6 @@ func (e *Encoder) WriteMapSize(length uint32) {
 }
 
 func (e *Encoder) WriteAny(value any) {
-	if value == nil {
-		e.WriteNil()
-	}
 	switch v := value.(type) {
 	case nil:
 		e.WriteNil()
@@ -351,6 +348,8 @@ func (e *Encoder) WriteAny(value any) {
 		e.WriteFloat64(v)
 	case string:
 		e.WriteString(v)
+	case time.Time:
+		e.WriteTime(v)
 	case []byte:
 		e.WriteByteArray(v)
 	case []interface{}:
@@ -365,6 +364,12 @@ func (e *Encoder) WriteAny(value any) {
 		for _, v := range v {
 			e.WriteString(v)
 		}
+	case []time.Time:
+		size := uint32(len(v))
+		e.WriteArraySize(size)
+		for _, v := range v {
+			e.WriteTime(v)
+		}
 	case []bool:
 		size := uint32(len(v))
 		e.WriteArraySize(size)
diff --git a/msgpack/sizer.go b/msgpack/sizer.go
index ad88b50..e7c3b0a 100644
--- a/msgpack/sizer.go
+++ b/msgpack/sizer.go
@@ -118,7 +118,7 @@ func (s *Sizer) WriteArraySize(length uint32) {
 }
 
 func (s *Sizer) writeBinLength(length uint32) {
-	if length < math.MaxUint8 {
+	if length <= math.MaxUint8 {
 		s.length += 1
 	} else if length <= math.MaxUint16 {
 		s.length += 2
@@ -279,9 +279,6 @@ func (s *Sizer) WriteNillableFloat64(value *float64) {
 }
 
 func (s *Sizer) WriteAny(value any) {
-	if value == nil {
-		s.WriteNil()
-	}
 	switch v := value.(type) {
 	case nil:
 		s.WriteNil()
-- 
2.43.0


From c399cd43dd1550df0271ad0949d0b9b81d7498f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:09 +0000
Subject: [PATCH 19/31] fix: msgpack skips every kind of value, reads times
 dynamically and survives hostile sizes, depths and map keys

---
 msgpack/data_reader.go |   2 +-
 msgpack/decoder.go     | 251 ++++++++++++++++++++---------------------
 msgpack/utils.go       |   4 +-
 3 files changed, 123 insertions(+), 134 deletions(-)

diff --git a/msgpack/data_reader.go b/msgpack/data_reader.go
index 4240605..eb2c84b 100644
--- a/msgpack/data_reader.go
+++ b/msgpack/data_reader.go
@@ -240,7 +240,7 @@ func (d *DataReader) checkBufferSize(length uint32) error {
 	if d.err != nil {
 		return d.err
 	}
-	if d.byteOffset+length > uint32(len(d.buffer)) {
+	if uint64(d.byteOffset)+uint64(length) > uint64(len(d.buffer)) {
 		d.err = ErrRange
 		return ErrRange
 	}
diff --git a/msgpack/decoder.go b/msgpack/decoder.go
index 02b0b29..20ff618 100644
--- a/msgpack/decoder.go
+++ b/msgpack/decoder.go
@@ -392,7 +392,14 @@ func (d *Decoder) ReadTime() (time.Time, error) {
 		return time.Parse(time.RFC3339Nano, str)
 	}
 
-	d.reader.Discard(1)
+	if err = d.reader.Discard(1); err != nil {
+		return time.Time{}, err
+	}
+	return d.readTimeExt(prefix)
+}
+
+// readTimeExt reads the rest of a timestamp extension that begins with `prefix`.
+func (d *Decoder) readTimeExt(prefix byte) (time.Time, error) {
 	extID, extLen, err := d.extHeader(prefix)
 	if err != nil {
 		return time.Time{}, err
@@ -593,122 +600,100 @@ func (d *Decoder) ReadMapSize() (uint32, error) {
 }
 
 func (d *Decoder) Skip() error {
-	numberOfObjectsToDiscard, err := d.getSize()
-	if err != nil {
-		return err
-	}
-
-	for numberOfObjectsToDiscard > 0 {
-		err = d.Skip() // Skip recursively
+	// Nested objects are counted instead of skipped recursively, so that
+	// deeply nested input cannot exhaust the stack.
+	for remaining := uint64(1); remaining > 0; remaining-- {
+		nested, err := d.getSize()
 		if err != nil {
 			return err
 		}
-		numberOfObjectsToDiscard--
+		remaining += nested
 	}
 	return nil
 }
 
-func (d *Decoder) getSize() (uint32, error) {
+// getSize discards an object except for the objects nested directly in it
+// and returns the number of those.
+func (d *Decoder) getSize() (uint64, error) {
 	leadByte, err := d.reader.GetUint8()
 	if err != nil {
 		return 0, err
 	}
-	var objectsToDiscard uint32 = 0
 
 	if isNegativeFixedInt(leadByte) || isFixedInt(leadByte) {
-		// Noop, will just discard the leadbyte
+		return 0, nil // Noop, will just discard the leadbyte
 	} else if isFixedString(leadByte) {
-		strLen := uint32(leadByte & 0x1f)
-		d.reader.Discard(strLen)
+		return 0, d.reader.Discard(uint32(leadByte & 0x1f))
 	} else if isFixedArray(leadByte) {
-		objectsToDiscard = uint32(leadByte & FormatFourLeastSigBitsInByte)
+		return uint64(leadByte & FormatFourLeastSigBitsInByte), nil
 	} else if isFixedMap(leadByte) {
-		objectsToDiscard = 2 * uint32(leadByte&FormatFourLeastSigBitsInByte)
-	} else {
-		switch leadByte {
-		case FormatNil, FormatTrue, FormatFalse:
-		case FormatString8, FormatBin8:
-			length, err := d.reader.GetUint8()
-			if err != nil {
-				return 0, err
-			}
-			err = d.reader.Discard(uint32(length))
-			if err != nil {
-				return 0, err
-			}
-		case FormatString16, FormatBin16:
-			length, err := d.reader.GetUint16()
-			if err != nil {
-				return 0, err
-			}
-			err = d.reader.Discard(uint32(length))
-			if err != nil {
-				return 0, err
-			}
-		case FormatString32, FormatBin32:
-			length, err := d.reader.GetUint32()
-			if err != nil {
-				return 0, err
-			}
-			err = d.reader.Discard(length)
-			if err != nil {
-				return 0, err
-			}
-		case FormatFloat32:
-			d.reader.Discard(4)
-		case FormatFloat64:
-			d.reader.Discard(8)
-		case FormatUint8, FormatInt8:
-			d.reader.Discard(1)
-		case FormatUint16, FormatInt16:
-			d.reader.Discard(2)
-		case FormatUint32, FormatInt32:
-			d.reader.Discard(4)
-		case FormatUint64, FormatInt64:
-			d.reader.Discard(8)
-		case FormatFixExt1:
-			d.reader.Discard(1)
-		case FormatFixExt2:
-			d.reader.Discard(3)
-		case FormatFixExt4:
-			d.reader.Discard(5)
-		case FormatFixExt8:
-			d.reader.Discard(9)
-		case FormatFixExt16:
-			d.reader.Discard(17)
-		case FormatArray16:
-			v, err := d.reader.GetUint16()
-			if err != nil {
-				return 0, err
-			}
-			objectsToDiscard = uint32(v)
-		case FormatArray32:
-			v, err := d.reader.GetUint32()
-			if err != nil {
-				return 0, err
-			}
-			objectsToDiscard = v
-		case FormatMap16:
-			v, err := d.reader.GetUint16()
-			if err != nil {
-				return 0, err
-			}
-			objectsToDiscard = 2 * uint32(v)
-		case FormatMap32:
-			v, err := d.reader.GetUint32()
-			if err != nil {
-				return 0, err
-			}
-			objectsToDiscard = 2 * v
-		default:
-			return 0, ReadError{"bad prefix"}
+		return 2 * uint64(leadByte&FormatFourLeastSigBitsInByte), nil
+	}
+
+	switch leadByte {
+	case FormatNil, FormatTrue, FormatFalse:
+		return 0, nil
+	case FormatString8, FormatBin8:
+		length, err := d.reader.GetUint8()
+		if err != nil {
+			return 0, err
 		}
+		return 0, d.reader.Discard(uint32(length))
+	case FormatString16, FormatBin16:
+		length, err := d.reader.GetUint16()
+		if err != nil {
+			return 0, err
+		}
+		return 0, d.reader.Discard(uint32(length))
+	case FormatString32, FormatBin32:
+		length, err := d.reader.GetUint32()
+		if err != nil {
+			return 0, err
+		}
+		return 0, d.reader.Discard(length)
+	case FormatUint8, FormatInt8:
+		return 0, d.reader.Discard(1)
+	case FormatUint16, FormatInt16:
+		return 0, d.reader.Discard(2)
+	case FormatUint32, FormatInt32, FormatFloat32:
+		return 0, d.reader.Discard(4)
+	case FormatUint64, FormatInt64, FormatFloat64:
+		return 0, d.reader.Discard(8)
+	case FormatFixExt1, FormatFixExt2, FormatFixExt4, FormatFixExt8, FormatFixExt16,
+		FormatExt8, FormatExt16, FormatExt32:
+		_, extLen, err := d.extHeader(leadByte)
+		if err != nil {
+			return 0, err
+		}
+		return 0, d.reader.Discard(extLen)
+	case FormatArray16:
+		v, err := d.reader.GetUint16()
+		return uint64(v), err
+	case FormatArray32:
+		v, err := d.reader.GetUint32()
+		return uint64(v), err
+	case FormatMap16:
+		v, err := d.reader.GetUint16()
+		return 2 * uint64(v), err
+	case FormatMap32:
+		v, err := d.reader.GetUint32()
+		return 2 * uint64(v), err
 	}
 
-	return objectsToDiscard, nil
+	return 0, ReadError{"bad prefix"}
 }
 
+// maxAnyDepth limits how deep the values read by `ReadAny` may be nested.
+const maxAnyDepth = 10000
+
 func (d *Decoder) ReadAny() (any, error) {
+	return d.readAny(maxAnyDepth)
+}
+
+func (d *Decoder) readAny(depth int) (any, error) {
+	if depth == 0 {
+		return nil, ReadError{"value is nested too deep"}
+	}
 	prefix, err := d.reader.GetUint8()
 	if err != nil {
 		return false, err
@@ -724,17 +709,11 @@ func (d *Decoder) ReadAny() (any, error) {
 	}
 
 	if isFixedArray(prefix) {
-		aryLen := uint32(prefix & FormatFourLeastSigBitsInByte)
-		ary := make([]any, aryLen)
-		err := d.readArray(ary)
-		return ary, err
+		return d.readArray(uint32(prefix&FormatFourLeastSigBitsInByte), depth)
 	}
 
 	if isFixedMap(prefix) {
-		mapLen := uint32(prefix & FormatFourLeastSigBitsInByte)
-		m := make(map[any]any, mapLen)
-		err := d.readMap(m, mapLen)
-		return m, err
+		return d.readMap(uint32(prefix&FormatFourLeastSigBitsInByte), depth)
 	}
 
 	switch prefix {
@@ -778,33 +757,25 @@ func (d *Decoder) ReadAny() (any, error) {
 		if err != nil {
 			return nil, err
 		}
-		ary := make([]any, v)
-		err = d.readArray(ary)
-		return ary, err
+		return d.readArray(uint32(v), depth)
 	case FormatArray32:
 		v, err := d.reader.GetUint32()
 		if err != nil {
 			return nil, err
 		}
-		ary := make([]any, v)
-		err = d.readArray(ary)
-		return ary, err
+		return d.readArray(v, depth)
 	case FormatMap16:
 		v, err := d.reader.GetUint16()
 		if err != nil {
 			return nil, err
 		}
-		m := make(map[any]any, v)
-		err = d.readMap(m, uint32(v))
-		return m, err
+		return d.readMap(uint32(v), depth)
 	case FormatMap32:
 		v, err := d.reader.GetUint32()
 		if err != nil {
 			return nil, err
 		}
-		m := make(map[any]any, v)
-		err = d.readMap(m, v)
-		return m, err
+		return d.readMap(v, depth)
 	case FormatBin8:
 		binLen, err := d.reader.GetUint8()
 		if err != nil {
@@ -823,35 +794,53 @@ func (d *Decoder) ReadAny() (any, error) {
 			return nil, err
 		}
 		return d.reader.GetBytes(binLen)
+	case FormatFixExt1, FormatFixExt2, FormatFixExt4, FormatFixExt8, FormatFixExt16,
+		FormatExt8, FormatExt16, FormatExt32:
+		return d.readTimeExt(prefix)
 	}
 
-	return nil, ReadError{"bad value for bool"}
+	return nil, ReadError{"bad prefix"}
+}
+
+// initialSize is the room made for a list or map that announces `length` items.
+// It is bounded because the input may hold fewer items than it announces.
+func initialSize(length uint32) uint32 {
+	if length > 4 {
+		return 4
+	}
+	return length
 }
 
-func (d *Decoder) readArray(array []any) error {
-	for i := 0; i < len(array); i++ {
-		value, err := d.ReadAny()
+func (d *Decoder) readArray(length uint32, depth int) ([]any, error) {
+	array := make([]any, 0, initialSize(length))
+	for i := uint32(0); i < length; i++ {
+		value, err := d.readAny(depth - 1)
 		if err != nil {
-			return err
+			return nil, err
 		}
-		array[i] = value
+		array = append(array, value)
 	}
-	return nil
+	return array, nil
 }
 
-func (d *Decoder) readMap(m map[any]any, length uint32) error {
+func (d *Decoder) readMap(length uint32, depth int) (map[any]any, error) {
+	m := make(map[any]any, initialSize(length))
 	for i := uint32(0); i < length; i++ {
-		key, err := d.ReadAny()
+		key, err := d.readAny(depth - 1)
 		if err != nil {
-			return err
+			return nil, err
+		}
+		switch key.(type) {
+		case []any, map[any]any, []byte:
+			return nil, ReadError{"bad type for map key"}
 		}
-		value, err := d.ReadAny()
+		value, err := d.readAny(depth - 1)
 		if err != nil {
-			return err
+			return nil, err
 		}
 		m[key] = value
 	}
-	return nil
+	return m, nil
 }
 
 func (d *Decoder) extHeader(c byte) (int8, uint32, error) {
@@ -889,13 +878,13 @@ func (d *Decoder) parseExtLen(c byte) (uint32, error) {
 	case FormatFixExt16:
 		return 16, nil
 	case FormatExt8:
-		n, err := d.ReadUint8()
+		n, err := d.reader.GetUint8()
 		return uint32(n), err
 	case FormatExt16:
-		n, err := d.ReadUint16()
+		n, err := d.reader.GetUint16()
 		return uint32(n), err
 	case FormatExt32:
-		n, err := d.ReadUint32()
+		n, err := d.reader.GetUint32()
 		return n, err
 	default:
 		return 0, ReadError{"msgpack: invalid code=" + strconv.FormatUint(uint64(c), 16) + " decoding ext len"}
diff --git a/msgpack/utils.go b/msgpack/utils.go
index e553ab7..bd5a246 100644
--- a/msgpack/utils.go
+++ b/msgpack/utils.go
@@ -18,7 +18,7 @@ func ReadSlice[T any](reader Reader, valF func(reader Reader) (T, error)) ([]T,
 	if err != nil {
 		return nil, err
 	}
-	request := make([]T, 0, listSize)
+	request := make([]T, 0, initialSize(listSize))
 	for listSize > 0 {
 		listSize--
 		item, err := valF(reader)
@@ -50,7 +50,7 @@ func ReadMap[K constraints.Ordered, V any](reader Reader,
 	if err != nil {
 		return nil, err
 	}
-	m := make(map[K]V, mapSize)
+	m := make(map[K]V, initialSize(mapSize))
 	for mapSize > 0 {
 		mapSize--
 		key, err := keyF(reader)
-- 
2.43.0


From 283104f49e5f1555124704a8d91dda3b59234ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:27 +0000
Subject: [PATCH 20/31] fix: converters return no value with an error, accept
 nil and keep the instant of times in zones with seconds

---
 msgpack/convert/convert.go | 46 ++++++++++++++++++++++++++++++--------
 1 file changed, 37 insertions(+), 9 deletions(-)

diff --git a/msgpack/convert/convert.go b/msgpack/convert/convert.go
index 455fc93..b4c680b 100644
--- a/msgpack/convert/convert.go
+++ b/msgpack/convert/convert.go
@@ -51,10 +51,17 @@ func StringToTimePtr(value *string, err error) (*time.Time, error) {
 		return nil, err
 	}
 	t, err := time.Parse(time.RFC3339Nano, *value)
-	return &t, err
+	if err != nil {
+		return nil, err
+	}
+	return &t, nil
 }
 
 func TimeToString(t time.Time) string {
+	// RFC 3339 has no zones with seconds, so the text would be of another instant.
+	if _, offset := t.Zone(); offset%60 != 0 {
+		t = t.UTC()
+	}
 	return t.Format(time.RFC3339Nano)
 }
 
@@ -62,26 +69,38 @@ func TimeToStringPtr(t *time.Time) *string {
 	if t == nil {
 		return nil
 	}
-	val := t.Format(time.RFC3339Nano)
+	val := TimeToString(*t)
 	return &val
 }
 
 func String[T ~string](value string, err error) (T, error) {
-	return T(value), err
+	if err != nil {
+		return "", err
+	}
+	return T(value), nil
 }
 
 func NillableString[T ~string](value *string, err error) (*T, error) {
+	if err != nil || value == nil {
+		return nil, err
+	}
 	ret := T(*value)
-	return &ret, err
+	return &ret, nil
 }
 
 func Bool[T ~bool](value bool, err error) (T, error) {
-	return T(value), err
+	if err != nil {
+		return false, err
+	}
+	return T(value), nil
 }
 
 func NillableBool[T ~bool](value *bool, err error) (*T, error) {
+	if err != nil || value == nil {
+		return nil, err
+	}
 	ret := T(*value)
-	return &ret, err
+	return &ret, nil
 }
 
 type numberic interface {
@@ -91,14 +110,23 @@ type numberic interface {
 }
 
 func Numeric[T, I numberic](value I, err error) (T, error) {
-	return T(value), err
+	if err != nil {
+		return 0, err
+	}
+	return T(value), nil
 }
 
 func NillableNumeric[T, I numberic](value *I, err error) (*T, error) {
+	if err != nil || value == nil {
+		return nil, err
+	}
 	ret := T(*value)
-	return &ret, err
+	return &ret, nil
 }
 
 func ByteArray[T, I ~[]byte](value I, err error) (T, error) {
-	return T(value), err
+	if err != nil {
+		return nil, err
+	}
+	return T(value), nil
 }
-- 
2.43.0


From f734a670e63044349b080062a5e555e8ea199bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:50 +0000
Subject: [PATCH 21/31] fix: socket frames keep their bytes, concurrent senders
 do not mix, data arriving with the end is read, oversized frames are refused

---
 transport/rsocket/decoder.go  |  6 ++----
 transport/rsocket/tcp_conn.go | 18 ++++++++++++++++--
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/transport/rsocket/decoder.go b/transport/rsocket/decoder.go
index 7e9be2e..4a0eac0 100644
--- a/transport/rsocket/decoder.go
+++ b/transport/rsocket/decoder.go
@@ -34,7 +34,8 @@ func (p *LengthBasedFrameDecoder) Read() (raw []byte, err error) {
 		}
 		return
 	}
-	raw = scanner.Bytes()[lengthFieldSize:]
+	// The scanner overwrites its buffer: the frame keeps its own bytes.
+	raw = append([]byte(nil), scanner.Bytes()[lengthFieldSize:]...)
 	if len(raw) < frames.FrameHeaderLen {
 		err = ErrIncompleteHeader
 	}
@@ -42,9 +43,6 @@ func (p *LengthBasedFrameDecoder) Read() (raw []byte, err error) {
 }
 
 func doSplit(data []byte, eof bool) (advance int, token []byte, err error) {
-	if eof {
-		return
-	}
 	if len(data) < lengthFieldSize {
 		return
 	}
diff --git a/transport/rsocket/tcp_conn.go b/transport/rsocket/tcp_conn.go
index d414878..29e7804 100644
--- a/transport/rsocket/tcp_conn.go
+++ b/transport/rsocket/tcp_conn.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"io"
 	"net"
+	"sync"
 	"time"
 
 	"github.com/nanobus/iota/go/internal/frames"
@@ -14,12 +15,13 @@ import (
 // TCPConn is RSocket connection for TCP transport.
 type TCPConn struct {
 	conn    net.Conn
+	mu      sync.Mutex // guards writer
 	writer  *bufio.Writer
 	decoder *LengthBasedFrameDecoder
 	// counter *core.TrafficCounter
 }
 
-func (p TCPConn) Addr() string {
+func (p *TCPConn) Addr() string {
 	addr := p.conn.RemoteAddr()
 	return addr.String()
 }
@@ -104,7 +106,16 @@ func (p *TCPConn) Write(frame frames.Frame) (err error) {
 	// if p.counter != nil && frame.Header().Resumable() {
 	// 	p.counter.IncWriteBytes(size)
 	// }
-	_, err = u24.MustNewUint24(size).WriteTo(p.writer)
+	length, err := u24.NewUint24(size)
+	if err != nil {
+		err = fmt.Errorf("write frame failed: %w", err)
+		return
+	}
+
+	p.mu.Lock()
+	defer p.mu.Unlock()
+
+	_, err = length.WriteTo(p.writer)
 	if err != nil {
 		err = fmt.Errorf("write frame failed: %w", err)
 		return
@@ -125,6 +136,9 @@ func (p *TCPConn) Write(frame frames.Frame) (err error) {
 
 // Flush flush data.
 func (p *TCPConn) Flush() (err error) {
+	p.mu.Lock()
+	defer p.mu.Unlock()
+
 	err = p.writer.Flush()
 	if err != nil {
 		err = fmt.Errorf("flush failed: %w", err)
-- 
2.43.0


From 9d974107b8f3925ee4d94bf5d49e52872977804e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:50 +0000
Subject: [PATCH 22/31] fix: socket transport ends on handler errors and
 cancellation, waiters return, server closes every connection and its listener

---
 transport/rsocket/tcp_transport.go | 51 ++++++++++++++++++++++++++----
 transport/rsocket/transport.go     | 51 +++++++++++++++++++++++++-----
 2 files changed, 87 insertions(+), 15 deletions(-)

diff --git a/transport/rsocket/tcp_transport.go b/transport/rsocket/tcp_transport.go
index 26dfd57..ed6bb25 100644
--- a/transport/rsocket/tcp_transport.go
+++ b/transport/rsocket/tcp_transport.go
@@ -52,9 +52,9 @@ func (t *tcpServerTransport) Close() (err error) {
 }
 
 func (t *tcpServerTransport) Listen(ctx context.Context, notifier chan<- bool) (err error) {
-	t.l, err = t.lf(ctx)
+	l, err := t.lf(ctx)
 	if err != nil {
-		notifier <- false
+		notify(notifier, false)
 		err = fmt.Errorf("listen tcp server failed: %w", err)
 		return
 	}
@@ -63,7 +63,13 @@ func (t *tcpServerTransport) Listen(ctx context.Context, notifier chan<- bool) (
 		_ = t.Close()
 	}()
 
-	notifier <- true
+	if !t.putListener(l) {
+		_ = l.Close()
+		notify(notifier, false)
+		return
+	}
+
+	notify(notifier, true)
 
 	// daemon: close if ctx is done.
 	go func() {
@@ -79,7 +85,7 @@ func (t *tcpServerTransport) Listen(ctx context.Context, notifier chan<- bool) (
 	// Start loop of accepting connections.
 	for {
 		var c net.Conn
-		c, err = t.l.Accept()
+		c, err = l.Accept()
 		if err == io.EOF || isClosedErr(err) {
 			err = nil
 			break
@@ -97,20 +103,51 @@ func (t *tcpServerTransport) Listen(ctx context.Context, notifier chan<- bool) (
 		})
 
 		if t.putTransport(tp) {
-			go tp.Start(ctx)
 			go func() {
-				tp.WaitUntilReady()
-				t.acceptor(ctx, h, func(tp *Transport) {
+				defer t.removeTransport(tp)
+				_ = tp.Start(ctx)
+			}()
+			go func() {
+				if !tp.WaitUntilReady() {
+					return
+				}
+				t.getAcceptor()(ctx, h, func(tp *Transport) {
 					t.removeTransport(tp)
 				})
 			}()
 		} else {
+			_ = tp.Close()
 			_ = t.Close()
 		}
 	}
 	return
 }
 
+func notify(notifier chan<- bool, listening bool) {
+	if notifier != nil {
+		notifier <- listening
+	}
+}
+
+func (t *tcpServerTransport) getAcceptor() ServerTransportAcceptor {
+	t.mu.Lock()
+	defer t.mu.Unlock()
+	return t.acceptor
+}
+
+func (t *tcpServerTransport) putListener(l net.Listener) bool {
+	t.mu.Lock()
+	defer t.mu.Unlock()
+	select {
+	case <-t.done:
+		// already closed
+		return false
+	default:
+		t.l = l
+		return true
+	}
+}
+
 func (t *tcpServerTransport) removeTransport(tp *Transport) {
 	t.mu.Lock()
 	defer t.mu.Unlock()
diff --git a/transport/rsocket/transport.go b/transport/rsocket/transport.go
index c547611..a16c32d 100644
--- a/transport/rsocket/transport.go
+++ b/transport/rsocket/transport.go
@@ -55,19 +55,23 @@ type Transport struct {
 	handler     DuplexHandler
 	isServer    bool
 	ready       chan struct{}
+	closed      chan struct{}
 }
 
 // NewTransport creates new transport.
 func NewTransport(c Conn, handler DuplexHandler, isServer bool) *Transport {
-	t := Transport{
+	t := &Transport{
 		conn:        c,
 		maxLifetime: DefaultKeepaliveMaxLifetime,
 		handler:     handler,
 		isServer:    isServer,
 		ready:       make(chan struct{}),
+		closed:      make(chan struct{}),
 	}
-	handler.SetFrameSender(t.handler.HandleFrame)
-	return &t
+	handler.SetFrameSender(func(f frames.Frame) error {
+		return t.Send(f, true)
+	})
+	return t
 }
 
 // IsNoHandlerError returns true if input error means no handler registered.
@@ -132,6 +136,7 @@ func (p *Transport) Flush() (err error) {
 // Close close current transport.
 func (p *Transport) Close() (err error) {
 	p.once.Do(func() {
+		close(p.closed)
 		err = p.conn.Close()
 	})
 	return
@@ -167,6 +172,8 @@ func (p *Transport) loopReadBuffer(ctx context.Context, bf *buffer.Unbounded[fra
 			case errCh <- err:
 			default:
 			}
+			// End the blocking read of the next frame.
+			_ = p.Close()
 		}
 		if bf.Load() == 0 {
 			runtime.Gosched()
@@ -175,11 +182,20 @@ func (p *Transport) loopReadBuffer(ctx context.Context, bf *buffer.Unbounded[fra
 }
 
 // Start start transport.
-func (p *Transport) Start(ctx context.Context) error {
+func (p *Transport) Start(ctx context.Context) (err error) {
 	defer func() {
 		_ = p.Close()
 	}()
 
+	// daemon: end the blocking read of the next frame if ctx is done.
+	go func() {
+		select {
+		case <-ctx.Done():
+			_ = p.Close()
+		case <-p.closed:
+		}
+	}()
+
 	done := make(chan struct{}, 1)
 	errChan := make(chan error, 1)
 
@@ -191,6 +207,16 @@ func (p *Transport) Start(ctx context.Context) error {
 		framesBuffer.Dispose()
 
 		<-done
+
+		// The connection may have been closed because of these.
+		select {
+		case e := <-errChan:
+			err = fmt.Errorf("dispatch incoming frame failed: %w", e)
+		default:
+			if e := ctx.Err(); e != nil {
+				err = e
+			}
+		}
 	}()
 
 	go p.loopReadBuffer(ctx, framesBuffer, errChan, done)
@@ -215,8 +241,6 @@ func (p *Transport) Start(ctx context.Context) error {
 		select {
 		case <-ctx.Done():
 			return ctx.Err()
-		case err := <-errChan:
-			return fmt.Errorf("dispatch incoming frame failed: %w", err)
 		default:
 			f, err := p.conn.Read()
 			if err == io.EOF {
@@ -231,6 +255,17 @@ func (p *Transport) Start(ctx context.Context) error {
 	}
 }
 
-func (p *Transport) WaitUntilReady() {
-	<-p.ready
+// WaitUntilReady waits until the transport is set up, or reports false if it was closed before.
+func (p *Transport) WaitUntilReady() bool {
+	select {
+	case <-p.ready:
+		return true
+	case <-p.closed:
+		select {
+		case <-p.ready:
+			return true
+		default:
+			return false
+		}
+	}
 }
-- 
2.43.0


From 344b621c24a6bb2d9729d11b62cc63d547437a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:20 +0000
Subject: [PATCH 23/31] fix: an instance's imported handlers may be set while
 it answers calls

---
 transport/wasmrs/host/instance.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/transport/wasmrs/host/instance.go b/transport/wasmrs/host/instance.go
index 27a6388..3c8ee2a 100644
--- a/transport/wasmrs/host/instance.go
+++ b/transport/wasmrs/host/instance.go
@@ -49,6 +49,7 @@ type Instance struct {
 	fragmentedPayloads map[uint32]fragmentedPayload
 	operations         operations.Table
 
+	handlers     sync.RWMutex // guards the imported handlers
 	importedRR   []invoke.RequestResponseHandler
 	importedRFNF []invoke.FireAndForgetHandler
 	importedRS   []invoke.RequestStreamHandler
@@ -562,6 +563,8 @@ func (i *Instance) handleRequestChannel(s *proxy.Responder, data, metadata []byt
 }
 
 func (i *Instance) SetRequestResponseHandler(index uint32, handler invoke.RequestResponseHandler) {
+	i.handlers.Lock()
+	defer i.handlers.Unlock()
 	for uint32(len(i.importedRR)) < index+1 {
 		i.importedRR = append(i.importedRR, nil)
 	}
@@ -569,6 +572,8 @@ func (i *Instance) SetRequestResponseHandler(index uint32, handler invoke.Reques
 }
 
 func (i *Instance) getRequestResponseHandler(index uint32) invoke.RequestResponseHandler {
+	i.handlers.RLock()
+	defer i.handlers.RUnlock()
 	if uint32(len(i.importedRR)) <= index {
 		return nil
 	}
@@ -576,6 +581,8 @@ func (i *Instance) getRequestResponseHandler(index uint32) invoke.RequestRespons
 }
 
 func (i *Instance) SetFireAndForgetHandler(index uint32, handler invoke.FireAndForgetHandler) {
+	i.handlers.Lock()
+	defer i.handlers.Unlock()
 	for uint32(len(i.importedRFNF)) < index+1 {
 		i.importedRFNF = append(i.importedRFNF, nil)
 	}
@@ -583,6 +590,8 @@ func (i *Instance) SetFireAndForgetHandler(index uint32, handler invoke.FireAndF
 }
 
 func (i *Instance) getFireAndForgetHandler(index uint32) invoke.FireAndForgetHandler {
+	i.handlers.RLock()
+	defer i.handlers.RUnlock()
 	if uint32(len(i.importedRFNF)) <= index {
 		return nil
 	}
@@ -590,6 +599,8 @@ func (i *Instance) getFireAndForgetHandler(index uint32) invoke.FireAndForgetHan
 }
 
 func (i *Instance) SetRequestStreamHandler(index uint32, handler invoke.RequestStreamHandler) {
+	i.handlers.Lock()
+	defer i.handlers.Unlock()
 	for uint32(len(i.importedRS)) < index+1 {
 		i.importedRS = append(i.importedRS, nil)
 	}
@@ -597,6 +608,8 @@ func (i *Instance) SetRequestStreamHandler(index uint32, handler invoke.RequestS
 }
 
 func (i *Instance) getRequestStreamHandler(index uint32) invoke.RequestStreamHandler {
+	i.handlers.RLock()
+	defer i.handlers.RUnlock()
 	if uint32(len(i.importedRS)) <= index {
 		return nil
 	}
@@ -604,6 +617,8 @@ func (i *Instance) getRequestStreamHandler(index uint32) invoke.RequestStreamHan
 }
 
 func (i *Instance) SetRequestChannelHandler(index uint32, handler invoke.RequestChannelHandler) {
+	i.handlers.Lock()
+	defer i.handlers.Unlock()
 	for uint32(len(i.importedRC)) < index+1 {
 		i.importedRC = append(i.importedRC, nil)
 	}
@@ -611,6 +626,8 @@ func (i *Instance) SetRequestChannelHandler(index uint32, handler invoke.Request
 }
 
 func (i *Instance) getRequestChannelHandler(index uint32) invoke.RequestChannelHandler {
+	i.handlers.RLock()
+	defer i.handlers.RUnlock()
 	if uint32(len(i.importedRC)) <= index {
 		return nil
 	}
-- 
2.43.0


From 47146a1dc89ea39335e6ae60486b3c92231816e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:21 +0000
Subject: [PATCH 24/31] fix: mesh calls reach the newest exporter by name and
 kind, unknown operations fail with an error, loading while calling is safe

---
 transport/wasmrs/mesh/mesh.go | 201 ++++++++++++++++++++++------------
 1 file changed, 131 insertions(+), 70 deletions(-)

diff --git a/transport/wasmrs/mesh/mesh.go b/transport/wasmrs/mesh/mesh.go
index 0ba06f8..8afd700 100644
--- a/transport/wasmrs/mesh/mesh.go
+++ b/transport/wasmrs/mesh/mesh.go
@@ -5,6 +5,7 @@ import (
 	"encoding/binary"
 	"fmt"
 	"os"
+	"sync"
 	"sync/atomic"
 	"time"
 
@@ -21,11 +22,24 @@ import (
 type (
 	Mesh struct {
 		verbose     bool
+		mu          sync.RWMutex // guards the fields below
 		instances   map[string]*host.Instance
-		exports     map[string]map[string]*atomic.Pointer[destination]
+		exports     map[string]map[exported]*binding
 		unsatisfied []*pending
 	}
 
+	// exported identifies an operation within its namespace.
+	exported struct {
+		operation   string
+		requestType operations.RequestType
+	}
+
+	// binding leads to whichever instance exports an operation: the one loaded last.
+	binding struct {
+		current atomic.Pointer[destination]
+		all     []*destination
+	}
+
 	destination struct {
 		instance *host.Instance
 		index    uint32
@@ -48,7 +62,7 @@ func WithVerbose() Option {
 func New(opts ...Option) *Mesh {
 	m := Mesh{
 		instances:   make(map[string]*host.Instance),
-		exports:     map[string]map[string]*atomic.Pointer[destination]{},
+		exports:     map[string]map[exported]*binding{},
 		unsatisfied: make([]*pending, 0, 10),
 	}
 
@@ -60,66 +74,59 @@ func New(opts ...Option) *Mesh {
 }
 
 func (m *Mesh) RequestResponse(ctx context.Context, namespace, operation string, p payload.Payload) mono.Mono[payload.Payload] {
-	ns, ok := m.exports[namespace]
-	if !ok {
-		return nil
-	}
-
-	ptr, ok := ns[operation]
-	if !ok {
-		return nil
+	dest := m.lookup(namespace, operation, operations.RequestResponse)
+	if dest == nil {
+		return mono.Error[payload.Payload](notFound(namespace, operation))
 	}
-	dest := ptr.Load()
 
 	return dest.RequestResponse(ctx, p)
 }
 
 func (m *Mesh) FireAndForget(ctx context.Context, namespace, operation string, p payload.Payload) {
-	ns, ok := m.exports[namespace]
-	if !ok {
-		return
-	}
-
-	ptr, ok := ns[operation]
-	if !ok {
+	dest := m.lookup(namespace, operation, operations.FireAndForget)
+	if dest == nil {
 		return
 	}
-	dest := ptr.Load()
 
 	dest.FireAndForget(ctx, p)
 }
 
 func (m *Mesh) RequestStream(ctx context.Context, namespace, operation string, p payload.Payload) flux.Flux[payload.Payload] {
-	ns, ok := m.exports[namespace]
-	if !ok {
-		return nil
-	}
-
-	ptr, ok := ns[operation]
-	if !ok {
-		return nil
+	dest := m.lookup(namespace, operation, operations.RequestStream)
+	if dest == nil {
+		return flux.Error[payload.Payload](notFound(namespace, operation))
 	}
-	dest := ptr.Load()
 
 	return dest.RequestStream(ctx, p)
 }
 
 func (m *Mesh) RequestChannel(ctx context.Context, namespace, operation string, p payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
-	ns, ok := m.exports[namespace]
-	if !ok {
-		return nil
+	dest := m.lookup(namespace, operation, operations.RequestChannel)
+	if dest == nil {
+		return flux.Error[payload.Payload](notFound(namespace, operation))
 	}
 
-	ptr, ok := ns[operation]
+	return dest.RequestChannel(ctx, p, in)
+}
+
+func (m *Mesh) lookup(namespace, operation string, requestType operations.RequestType) *destination {
+	m.mu.RLock()
+	b, ok := m.exports[namespace][exported{operation, requestType}]
+	m.mu.RUnlock()
 	if !ok {
 		return nil
 	}
-	dest := ptr.Load()
+	return b.current.Load()
+}
 
-	return dest.RequestChannel(ctx, p, in)
+func notFound(namespace, operation string) error {
+	return fmt.Errorf("operation %s.%s not found", namespace, operation)
 }
 
 func (m *Mesh) Close() {
+	m.mu.RLock()
+	defer m.mu.RUnlock()
+
 	for _, inst := range m.instances {
 		inst.Close()
 	}
@@ -154,6 +161,9 @@ func (m *Mesh) LoadModule(ctx context.Context, filename string) (*host.Instance,
 		return nil, err
 	}
 
+	m.mu.Lock()
+	defer m.mu.Unlock()
+
 	// Close previously loaded instance.
 	existing, ok := m.instances[filename]
 	if ok {
@@ -169,6 +179,9 @@ func (m *Mesh) LoadModule(ctx context.Context, filename string) (*host.Instance,
 		fmt.Println("Loaded " + filename)
 	}
 	m.linkOperations(inst)
+	if existing != nil {
+		m.unlinkOperations(existing)
+	}
 
 	return inst, nil
 }
@@ -193,19 +206,22 @@ func (m *Mesh) linkOperations(inst *host.Instance) {
 		case operations.Export:
 			ns, ok := m.exports[op.Namespace]
 			if !ok {
-				ns = make(map[string]*atomic.Pointer[destination])
+				ns = make(map[exported]*binding)
 				m.exports[op.Namespace] = ns
 			}
-			ptr, ok := ns[op.Operation]
+			key := exported{op.Operation, op.Type}
+			b, ok := ns[key]
 			if !ok {
-				ptr = &atomic.Pointer[destination]{}
-				ns[op.Operation] = ptr
+				b = &binding{}
+				ns[key] = b
 			}
 
-			ptr.Store(&destination{
+			dest := &destination{
 				instance: inst,
 				index:    op.Index,
-			})
+			}
+			b.all = append(b.all, dest)
+			b.current.Store(dest)
 			numExported++
 
 		case operations.Import:
@@ -234,60 +250,105 @@ func (m *Mesh) linkOperations(inst *host.Instance) {
 	}
 }
 
-func (m *Mesh) linkOperation(inst *host.Instance, op operations.Operation) bool {
-	ns, ok := m.exports[op.Namespace]
-	if !ok {
-		return false
+// unlinkOperations removes what an instance exports and waits for. Operations which another
+// instance exports too lead there, others to nothing until they are exported again.
+func (m *Mesh) unlinkOperations(inst *host.Instance) {
+	for _, ns := range m.exports {
+		for _, b := range ns {
+			kept := b.all[:0]
+			for _, dest := range b.all {
+				if dest.instance != inst {
+					kept = append(kept, dest)
+				}
+			}
+			if len(kept) == len(b.all) {
+				continue
+			}
+			b.all = kept
+			if len(kept) > 0 {
+				b.current.Store(kept[len(kept)-1])
+			} else {
+				b.current.Store(nil)
+			}
+		}
 	}
 
-	ptr, ok := ns[op.Operation]
+	filtered := m.unsatisfied[:0]
+	for _, u := range m.unsatisfied {
+		if u.instance != inst {
+			filtered = append(filtered, u)
+		}
+	}
+	m.unsatisfied = filtered
+}
+
+// linkOperation connects an import to whatever instance exports it at the time of each call.
+func (m *Mesh) linkOperation(inst *host.Instance, op operations.Operation) bool {
+	b, ok := m.exports[op.Namespace][exported{op.Operation, op.Type}]
 	if !ok {
 		return false
 	}
-	dest := ptr.Load()
 
 	switch op.Type {
 	case operations.RequestResponse:
-		inst.SetRequestResponseHandler(op.Index, dest.RequestResponse)
+		inst.SetRequestResponseHandler(op.Index, func(ctx context.Context, p payload.Payload) mono.Mono[payload.Payload] {
+			dest := b.current.Load()
+			if dest == nil {
+				return mono.Error[payload.Payload](notFound(op.Namespace, op.Operation))
+			}
+			return dest.RequestResponse(ctx, p)
+		})
 	case operations.FireAndForget:
-		inst.SetFireAndForgetHandler(op.Index, dest.FireAndForget)
+		inst.SetFireAndForgetHandler(op.Index, func(ctx context.Context, p payload.Payload) {
+			if dest := b.current.Load(); dest != nil {
+				dest.FireAndForget(ctx, p)
+			}
+		})
 	case operations.RequestStream:
-		inst.SetRequestStreamHandler(op.Index, dest.RequestStream)
+		inst.SetRequestStreamHandler(op.Index, func(ctx context.Context, p payload.Payload) flux.Flux[payload.Payload] {
+			dest := b.current.Load()
+			if dest == nil {
+				return flux.Error[payload.Payload](notFound(op.Namespace, op.Operation))
+			}
+			return dest.RequestStream(ctx, p)
+		})
 	case operations.RequestChannel:
-		inst.SetRequestChannelHandler(op.Index, dest.RequestChannel)
+		inst.SetRequestChannelHandler(op.Index, func(ctx context.Context, p payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
+			dest := b.current.Load()
+			if dest == nil {
+				return flux.Error[payload.Payload](notFound(op.Namespace, op.Operation))
+			}
+			return dest.RequestChannel(ctx, p, in)
+		})
 	}
 
 	return true
 }
 
-func (d *destination) RequestResponse(ctx context.Context, p payload.Payload) mono.Mono[payload.Payload] {
-	md := p.Metadata()
-	if md != nil {
-		binary.BigEndian.PutUint32(md, d.index)
+// address returns the payload with the number of the operation in its metadata.
+func (d *destination) address(p payload.Payload) payload.Payload {
+	size := len(p.Metadata())
+	if size < 8 {
+		size = 8
 	}
-	return d.instance.RequestResponse(ctx, p)
+	md := make([]byte, size)
+	copy(md, p.Metadata())
+	binary.BigEndian.PutUint32(md, d.index)
+	return payload.New(p.Data(), md)
+}
+
+func (d *destination) RequestResponse(ctx context.Context, p payload.Payload) mono.Mono[payload.Payload] {
+	return d.instance.RequestResponse(ctx, d.address(p))
 }
 
 func (d *destination) FireAndForget(ctx context.Context, p payload.Payload) {
-	md := p.Metadata()
-	if md != nil {
-		binary.BigEndian.PutUint32(md, d.index)
-	}
-	d.instance.FireAndForget(ctx, p)
+	d.instance.FireAndForget(ctx, d.address(p))
 }
 
 func (d *destination) RequestStream(ctx context.Context, p payload.Payload) flux.Flux[payload.Payload] {
-	md := p.Metadata()
-	if md != nil {
-		binary.BigEndian.PutUint32(md, d.index)
-	}
-	return d.instance.RequestStream(ctx, p)
+	return d.instance.RequestStream(ctx, d.address(p))
 }
 
 func (d *destination) RequestChannel(ctx context.Context, p payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
-	md := p.Metadata()
-	if md != nil {
-		binary.BigEndian.PutUint32(md, d.index)
-	}
-	return d.instance.RequestChannel(ctx, p, in)
+	return d.instance.RequestChannel(ctx, d.address(p), in)
 }
-- 
2.43.0


From 9d87409789d9c24f13c58a8840dc88ebd05bc312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:30 +0000
Subject: [PATCH 25/31] fix: the time transform keeps the instant of times in
 zones with seconds

---
 transform/transform.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/transform/transform.go b/transform/transform.go
index d3c5823..4ed5d7f 100644
--- a/transform/transform.go
+++ b/transform/transform.go
@@ -8,6 +8,7 @@ import (
 
 	"github.com/nanobus/iota/go/invoke"
 	"github.com/nanobus/iota/go/msgpack"
+	"github.com/nanobus/iota/go/msgpack/convert"
 	"github.com/nanobus/iota/go/payload"
 	"github.com/nanobus/iota/go/rx"
 	"github.com/nanobus/iota/go/rx/flux"
@@ -273,7 +274,7 @@ var Time = Transform[time.Time]{
 	},
 	Encode: func(value time.Time) (payload.Payload, error) {
 		sizer := msgpack.NewSizer()
-		val := value.Format(time.RFC3339Nano)
+		val := convert.TimeToString(value)
 		sizer.WriteString(val)
 		buf := make([]byte, sizer.Len())
 		encoder := msgpack.NewEncoder(buf)
-- 
2.43.0


From 41b28a99e52cee5a7c941d77c4b0a1afb100d464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:25 +0000
Subject: [PATCH 26/31] fix: requests pending when their connection or instance
 ends fail instead of never ending

---
 handler/handler.go                |  4 ++++
 proxy/lookup.go                   | 13 +++++++++++++
 proxy/stream.go                   | 12 ++++++++++++
 transport/rsocket/transport.go    |  4 ++++
 transport/wasmrs/host/instance.go |  2 ++
 5 files changed, 35 insertions(+)

diff --git a/handler/handler.go b/handler/handler.go
index 76f90cf..ae01139 100644
--- a/handler/handler.go
+++ b/handler/handler.go
@@ -14,6 +14,8 @@ import (
 	"github.com/nanobus/iota/go/rx/mono"
 )
 
+var errClosed = errors.New("connection is closed")
+
 type FrameSender func(f frames.Frame) error
 
 type Handler struct {
@@ -72,7 +74,9 @@ func (i *Handler) SetFrameSender(sendFrame func(f frames.Frame) error) {
 	i.sendFrame = sendFrame
 }
 
+// Close ends the streams of a connection that has ended.
 func (i *Handler) Close() error {
+	proxy.Abort(errClosed, &i.guestStreams, &i.hostStreams)
 	return nil
 }
 
diff --git a/proxy/lookup.go b/proxy/lookup.go
index 3a3d686..e85e73d 100644
--- a/proxy/lookup.go
+++ b/proxy/lookup.go
@@ -90,6 +90,19 @@ func (l *Lookup) Remove(id uint32) {
 	}
 }
 
+// Drain removes all streams and returns them.
+func (l *Lookup) Drain() (streams []Stream) {
+	l.mu.Lock()
+	defer l.mu.Unlock()
+
+	for n := l.head; n != nil; n = n.next {
+		streams = append(streams, n.stream)
+	}
+	l.count, l.head, l.tail = 0, nil, nil
+
+	return streams
+}
+
 func (l *Lookup) find(id uint32) *node {
 	for n := l.head; n != nil; n = n.next {
 		if n.stream.StreamID() == id {
diff --git a/proxy/stream.go b/proxy/stream.go
index 7911926..c73d3eb 100644
--- a/proxy/stream.go
+++ b/proxy/stream.go
@@ -22,6 +22,18 @@ type Duplex interface {
 	OnCancel()
 }
 
+// Abort ends the streams of a connection that has ended.
+func Abort(err error, lookups ...*Lookup) {
+	for _, l := range lookups {
+		for _, s := range l.Drain() {
+			s.OnError(err)
+			if d, ok := s.(Duplex); ok {
+				d.OnCancel()
+			}
+		}
+	}
+}
+
 type streamKey struct{}
 
 func FromContext(ctx context.Context) (Stream, bool) {
diff --git a/transport/rsocket/transport.go b/transport/rsocket/transport.go
index a16c32d..ffcf683 100644
--- a/transport/rsocket/transport.go
+++ b/transport/rsocket/transport.go
@@ -185,6 +185,10 @@ func (p *Transport) loopReadBuffer(ctx context.Context, bf *buffer.Unbounded[fra
 func (p *Transport) Start(ctx context.Context) (err error) {
 	defer func() {
 		_ = p.Close()
+		// Nothing can be answered any more.
+		if c, ok := p.handler.(io.Closer); ok {
+			_ = c.Close()
+		}
 	}()
 
 	// daemon: end the blocking read of the next frame if ctx is done.
diff --git a/transport/wasmrs/host/instance.go b/transport/wasmrs/host/instance.go
index 3c8ee2a..a7d6cc6 100644
--- a/transport/wasmrs/host/instance.go
+++ b/transport/wasmrs/host/instance.go
@@ -278,6 +278,8 @@ func (i *Instance) recvLoop() {
 		i.recvCh.Load()
 		i.recvOne(buf)
 	}
+	// Nothing can be answered any more.
+	proxy.Abort(errClosed, &i.guestStreams, &i.hostStreams)
 }
 
 func (i *Instance) recvOne(data []byte) {
-- 
2.43.0


From 18c0fefd6dd5b018876f4c6fa0fb9be8e455815d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:58 +0000
Subject: [PATCH 27/31] fix: a request-response that could not be sent leaves
 no stream behind

---
 handler/caller.go                |  2 +-
 proxy/mono.go                    | 10 +++++++++-
 transport/wasmrs/guest/caller.go |  2 +-
 transport/wasmrs/host/caller.go  |  2 +-
 4 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/handler/caller.go b/handler/caller.go
index 05aa806..3b7a128 100644
--- a/handler/caller.go
+++ b/handler/caller.go
@@ -71,7 +71,7 @@ func (i *Handler) RequestResponse(ctx context.Context, p payload.Payload) mono.M
 		Data:      p.Data(),
 		Complete:  true,
 		InitialN:  1,
-	}, i.SendFrame, i.registerStream)
+	}, i.SendFrame, i.registerStream, i.removeStream)
 }
 
 func (i *Handler) FireAndForget(ctx context.Context, p payload.Payload) {
diff --git a/proxy/mono.go b/proxy/mono.go
index 46efaaa..59229e0 100644
--- a/proxy/mono.go
+++ b/proxy/mono.go
@@ -10,7 +10,10 @@ import (
 	"github.com/nanobus/iota/go/rx/mono"
 )
 
-func Mono(ctx context.Context, request frames.RequestPayload, sendFrame func(frames.Frame) error, register func(Stream)) mono.Mono[payload.Payload] {
+// Mono returns the publisher of a request whose response arrives on a stream.
+// The stream is registered when the request is sent, and removed (if the
+// caller says how) when that fails.
+func Mono(ctx context.Context, request frames.RequestPayload, sendFrame func(frames.Frame) error, register func(Stream), remove ...func(streamID uint32)) mono.Mono[payload.Payload] {
 	m := mono.NewProcessor[payload.Payload]()
 	ss := streamMono{
 		ctx:       ctx,
@@ -18,6 +21,7 @@ func Mono(ctx context.Context, request frames.RequestPayload, sendFrame func(fra
 		request:   request,
 		sendFrame: sendFrame,
 		register:  register,
+		remove:    remove,
 	}
 	return &ss
 }
@@ -29,6 +33,7 @@ type streamMono struct {
 	request   frames.RequestPayload
 	sendFrame func(frames.Frame) error
 	register  func(Stream)
+	remove    []func(streamID uint32)
 
 	mu         sync.Mutex
 	subscribed bool
@@ -98,6 +103,9 @@ func (s *streamMono) Subscribe(sub mono.Subscribe[payload.Payload]) mono.Mono[pa
 		s.register(s)
 		s.Processor.Subscribe(sub)
 		if err := s.sendFrame(&s.request); err != nil {
+			for _, remove := range s.remove {
+				remove(s.request.StreamID)
+			}
 			s.OnError(err)
 		}
 		return s
diff --git a/transport/wasmrs/guest/caller.go b/transport/wasmrs/guest/caller.go
index 81d14fa..c8ebb10 100644
--- a/transport/wasmrs/guest/caller.go
+++ b/transport/wasmrs/guest/caller.go
@@ -43,7 +43,7 @@ func (i *Caller) RequestResponse(ctx context.Context, p payload.Payload) mono.Mo
 		Data:      p.Data(),
 		Complete:  true,
 		InitialN:  1,
-	}, sendFrame, registerStream)
+	}, sendFrame, registerStream, removeStream)
 }
 
 func (i *Caller) FireAndForget(ctx context.Context, p payload.Payload) {
diff --git a/transport/wasmrs/host/caller.go b/transport/wasmrs/host/caller.go
index 191a684..63a7238 100644
--- a/transport/wasmrs/host/caller.go
+++ b/transport/wasmrs/host/caller.go
@@ -36,7 +36,7 @@ func (i *Instance) RequestResponse(ctx context.Context, p payload.Payload) mono.
 		Data:      p.Data(),
 		Complete:  true,
 		InitialN:  1,
-	}, i.SendFrame, i.registerStream)
+	}, i.SendFrame, i.registerStream, i.removeStream)
 }
 
 func (i *Instance) FireAndForget(ctx context.Context, p payload.Payload) {
-- 
2.43.0


From e58d3a67f318ac71f593c80eb91b05b366718ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:47 +0000
Subject: [PATCH 28/31] fix: modules that cannot be used are refused, a module
 failing at a frame fails its request, several instances per host

---
 transport/wasmrs/host/host.go     | 18 ++++++++++---
 transport/wasmrs/host/instance.go | 42 ++++++++++++++++++++++++++++---
 2 files changed, 52 insertions(+), 8 deletions(-)

diff --git a/transport/wasmrs/host/host.go b/transport/wasmrs/host/host.go
index 9c7632a..c83d610 100644
--- a/transport/wasmrs/host/host.go
+++ b/transport/wasmrs/host/host.go
@@ -3,6 +3,8 @@ package host
 import (
 	"context"
 	"os"
+	"strconv"
+	"sync/atomic"
 
 	"github.com/tetratelabs/wazero"
 	"github.com/tetratelabs/wazero/api"
@@ -18,8 +20,9 @@ const (
 )
 
 type Host struct {
-	runtime wazero.Runtime
-	config  wazero.ModuleConfig
+	runtime   wazero.Runtime
+	config    wazero.ModuleConfig
+	instances atomic.Uint64
 }
 
 type Module struct {
@@ -74,12 +77,19 @@ func (h *Host) Compile(ctx context.Context, source []byte) (*Module, error) {
 }
 
 func (m *Module) Instantiate(ctx context.Context) (*Instance, error) {
-	module, err := m.h.runtime.InstantiateModule(ctx, m.module, m.h.config.WithName("test"))
+	// Names are unique within a runtime.
+	name := "instance-" + strconv.FormatUint(m.h.instances.Add(1), 10)
+	module, err := m.h.runtime.InstantiateModule(ctx, m.module, m.h.config.WithName(name))
 	if err != nil {
 		return nil, err
 	}
 
-	return NewInstance(ctx, module)
+	instance, err := NewInstance(ctx, module)
+	if err != nil {
+		_ = module.Close(ctx)
+		return nil, err
+	}
+	return instance, nil
 }
 
 func instantiateWasmrs(ctx context.Context, r wazero.Runtime) (api.Closer, error) {
diff --git a/transport/wasmrs/host/instance.go b/transport/wasmrs/host/instance.go
index a7d6cc6..7c17c51 100644
--- a/transport/wasmrs/host/instance.go
+++ b/transport/wasmrs/host/instance.go
@@ -9,6 +9,7 @@ import (
 	"sync/atomic"
 
 	"github.com/tetratelabs/wazero/api"
+	"github.com/tetratelabs/wazero/sys"
 
 	"github.com/nanobus/iota/go/internal/buffer"
 	"github.com/nanobus/iota/go/internal/frames"
@@ -48,6 +49,7 @@ type Instance struct {
 	maxFrameSize       uint32
 	fragmentedPayloads map[uint32]fragmentedPayload
 	operations         operations.Table
+	operationsErr      error
 
 	handlers     sync.RWMutex // guards the imported handlers
 	importedRR   []invoke.RequestResponseHandler
@@ -98,10 +100,16 @@ func NewInstance(ctx context.Context, m api.Module) (*Instance, error) {
 	}
 
 	f := m.ExportedFunction("__wasmrs_op_list_request")
+	if f == nil {
+		return nil, errors.New("module does not export __wasmrs_op_list_request")
+	}
 	_, err = f.Call(ctx)
 	if err != nil {
 		return nil, err
 	}
+	if i.operationsErr != nil {
+		return nil, fmt.Errorf("operations of the module: %w", i.operationsErr)
+	}
 
 	go i.recvLoop()
 	go i.sendLoop()
@@ -217,6 +225,7 @@ func (i *Instance) sendLoop() {
 		mem := i.m.Memory()
 		buf, ok := mem.Read(i.sendPtr, i.sendSize)
 		if !ok {
+			i.failed(f, errors.New("buffer is out of memory range"))
 			continue
 		}
 		byteCount := f.Size()
@@ -227,17 +236,42 @@ func (i *Instance) sendLoop() {
 		f.Encode(buf[3:])
 
 		// Send frame data to guest.
-		i.sendFn.Call(ctx, uint64(3+byteCount))
+		if _, err := i.sendFn.Call(ctx, uint64(3+byteCount)); err != nil {
+			i.failed(f, err)
+		}
 	}
 }
+
+// failed ends the stream whose frame the module failed at, behind
+// what it answered before.
+func (i *Instance) failed(f frames.Frame, err error) {
+	var exit *sys.ExitError
+	if errors.As(err, &exit) {
+		// The module runs no more and answers nothing.
+		i.sendCh.Dispose()
+		i.recvCh.Dispose()
+		return
+	}
+	if f.GetStreamID()&1 == 1 {
+		return // The module asked; there is nobody to tell.
+	}
+	e := frames.Error{StreamID: f.GetStreamID(), Data: err.Error()}
+	buf := make([]byte, e.Size())
+	e.Encode(buf)
+	i.receive(buf)
+}
+
 func (i *Instance) Operations() operations.Table {
 	return i.operations
 }
 
 func (i *Instance) opList(ctx context.Context, opPtr uint32, opSize uint32) {
-	buf, _ := i.m.Memory().Read(opPtr, opSize)
-	operations, _ := operations.FromBytes(buf)
-	i.operations = operations
+	buf, ok := i.m.Memory().Read(opPtr, opSize)
+	if !ok {
+		i.operationsErr = errors.New("list is out of memory range")
+		return
+	}
+	i.operations, i.operationsErr = operations.FromBytes(buf)
 }
 
 func (i *Instance) hostSend(ctx context.Context, recvPos uint32) {
-- 
2.43.0


From bc7f569af49f654ccd9b9393ffc7bb46f157827e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:47 +0000
Subject: [PATCH 29/31] fix: a module may number its imports as it likes

---
 transport/wasmrs/host/instance.go | 38 +++++++++++--------------------
 1 file changed, 13 insertions(+), 25 deletions(-)

diff --git a/transport/wasmrs/host/instance.go b/transport/wasmrs/host/instance.go
index 7c17c51..dcf8433 100644
--- a/transport/wasmrs/host/instance.go
+++ b/transport/wasmrs/host/instance.go
@@ -51,11 +51,11 @@ type Instance struct {
 	operations         operations.Table
 	operationsErr      error
 
-	handlers     sync.RWMutex // guards the imported handlers
-	importedRR   []invoke.RequestResponseHandler
-	importedRFNF []invoke.FireAndForgetHandler
-	importedRS   []invoke.RequestStreamHandler
-	importedRC   []invoke.RequestChannelHandler
+	handlers     sync.RWMutex // guards the imported handlers, by numbers which the module chooses
+	importedRR   map[uint32]invoke.RequestResponseHandler
+	importedRFNF map[uint32]invoke.FireAndForgetHandler
+	importedRS   map[uint32]invoke.RequestStreamHandler
+	importedRC   map[uint32]invoke.RequestChannelHandler
 }
 
 type fragmentedPayload struct {
@@ -601,8 +601,8 @@ func (i *Instance) handleRequestChannel(s *proxy.Responder, data, metadata []byt
 func (i *Instance) SetRequestResponseHandler(index uint32, handler invoke.RequestResponseHandler) {
 	i.handlers.Lock()
 	defer i.handlers.Unlock()
-	for uint32(len(i.importedRR)) < index+1 {
-		i.importedRR = append(i.importedRR, nil)
+	if i.importedRR == nil {
+		i.importedRR = make(map[uint32]invoke.RequestResponseHandler)
 	}
 	i.importedRR[index] = handler
 }
@@ -610,17 +610,14 @@ func (i *Instance) SetRequestResponseHandler(index uint32, handler invoke.Reques
 func (i *Instance) getRequestResponseHandler(index uint32) invoke.RequestResponseHandler {
 	i.handlers.RLock()
 	defer i.handlers.RUnlock()
-	if uint32(len(i.importedRR)) <= index {
-		return nil
-	}
 	return i.importedRR[index]
 }
 
 func (i *Instance) SetFireAndForgetHandler(index uint32, handler invoke.FireAndForgetHandler) {
 	i.handlers.Lock()
 	defer i.handlers.Unlock()
-	for uint32(len(i.importedRFNF)) < index+1 {
-		i.importedRFNF = append(i.importedRFNF, nil)
+	if i.importedRFNF == nil {
+		i.importedRFNF = make(map[uint32]invoke.FireAndForgetHandler)
 	}
 	i.importedRFNF[index] = handler
 }
@@ -628,17 +625,14 @@ func (i *Instance) SetFireAndForgetHandler(index uint32, handler invoke.FireAndF
 func (i *Instance) getFireAndForgetHandler(index uint32) invoke.FireAndForgetHandler {
 	i.handlers.RLock()
 	defer i.handlers.RUnlock()
-	if uint32(len(i.importedRFNF)) <= index {
-		return nil
-	}
 	return i.importedRFNF[index]
 }
 
 func (i *Instance) SetRequestStreamHandler(index uint32, handler invoke.RequestStreamHandler) {
 	i.handlers.Lock()
 	defer i.handlers.Unlock()
-	for uint32(len(i.importedRS)) < index+1 {
-		i.importedRS = append(i.importedRS, nil)
+	if i.importedRS == nil {
+		i.importedRS = make(map[uint32]invoke.RequestStreamHandler)
 	}
 	i.importedRS[index] = handler
 }
@@ -646,17 +640,14 @@ func (i *Instance) SetRequestStreamHandler(index uint32, handler invoke.RequestS
 func (i *Instance) getRequestStreamHandler(index uint32) invoke.RequestStreamHandler {
 	i.handlers.RLock()
 	defer i.handlers.RUnlock()
-	if uint32(len(i.importedRS)) <= index {
-		return nil
-	}
 	return i.importedRS[index]
 }
 
 func (i *Instance) SetRequestChannelHandler(index uint32, handler invoke.RequestChannelHandler) {
 	i.handlers.Lock()
 	defer i.handlers.Unlock()
-	for uint32(len(i.importedRC)) < index+1 {
-		i.importedRC = append(i.importedRC, nil)
+	if i.importedRC == nil {
+		i.importedRC = make(map[uint32]invoke.RequestChannelHandler)
 	}
 	i.importedRC[index] = handler
 }
@@ -664,9 +655,6 @@ func (i *Instance) SetRequestChannelHandler(index uint32, handler invoke.Request
 func (i *Instance) getRequestChannelHandler(index uint32) invoke.RequestChannelHandler {
 	i.handlers.RLock()
 	defer i.handlers.RUnlock()
-	if uint32(len(i.importedRC)) <= index {
-		return nil
-	}
 	return i.importedRC[index]
 }
 
-- 
2.43.0


From 7f6e23f5f507c7db6a1724b2af1e6ecd74f32eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:19 +0000
Subject: [PATCH 30/31] fix: do not give a stream number that a long-lived
 stream still uses

After 2^30 requests the numbers repeat; a new request could get the number
of a stream that is still open, and take its frames.
---
 handler/caller.go                | 12 ++++++++++--
 transport/wasmrs/guest/caller.go | 12 ++++++++++--
 transport/wasmrs/host/caller.go  | 12 ++++++++++--
 3 files changed, 30 insertions(+), 6 deletions(-)

diff --git a/handler/caller.go b/handler/caller.go
index 3b7a128..7e13b8d 100644
--- a/handler/caller.go
+++ b/handler/caller.go
@@ -106,6 +106,14 @@ func (i *Handler) RequestChannel(ctx context.Context, p payload.Payload, in flux
 }
 
 func (i *Handler) getNextStreamID() uint32 {
-	nextID, _ := i.nextStreamID()
-	return nextID
+	for {
+		nextID, firstLoop := i.nextStreamID()
+		if firstLoop {
+			return nextID
+		}
+		// Numbers repeat: a long-lived stream may still use this one.
+		if _, used := i.getStream(nextID); !used {
+			return nextID
+		}
+	}
 }
diff --git a/transport/wasmrs/guest/caller.go b/transport/wasmrs/guest/caller.go
index c8ebb10..1f78516 100644
--- a/transport/wasmrs/guest/caller.go
+++ b/transport/wasmrs/guest/caller.go
@@ -79,6 +79,14 @@ func (i *Caller) RequestChannel(ctx context.Context, p payload.Payload, in flux.
 }
 
 func (i *Caller) getNextStreamID() uint32 {
-	nextID, _ := i.streamIDs.Next()
-	return nextID
+	for {
+		nextID, firstLoop := i.streamIDs.Next()
+		if firstLoop {
+			return nextID
+		}
+		// Numbers repeat: a long-lived stream may still use this one.
+		if _, used := getStream(nextID); !used {
+			return nextID
+		}
+	}
 }
diff --git a/transport/wasmrs/host/caller.go b/transport/wasmrs/host/caller.go
index 63a7238..96e8680 100644
--- a/transport/wasmrs/host/caller.go
+++ b/transport/wasmrs/host/caller.go
@@ -71,6 +71,14 @@ func (i *Instance) RequestChannel(ctx context.Context, p payload.Payload, in flu
 }
 
 func (i *Instance) getNextStreamID() uint32 {
-	streamID, _ := i.streamIDs.Next()
-	return streamID
+	for {
+		streamID, firstLoop := i.streamIDs.Next()
+		if firstLoop {
+			return streamID
+		}
+		// Numbers repeat: a long-lived stream may still use this one.
+		if _, used := i.getStream(streamID); !used {
+			return streamID
+		}
+	}
 }
-- 
2.43.0


From de4e1380826e156f1e20c8b70a00c3ff7b966de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:11 +0000
Subject: [PATCH 31/31] fix: an error whose text is too long for a buffer is
 sent with a shorter text

---
 internal/frames/error.go          | 18 ++++++++++++++++++
 transport/rsocket/tcp_conn.go     |  1 +
 transport/wasmrs/guest/guest.go   |  3 +++
 transport/wasmrs/host/instance.go |  3 +++
 4 files changed, 25 insertions(+)

diff --git a/internal/frames/error.go b/internal/frames/error.go
index 07271e1..20587f1 100644
--- a/internal/frames/error.go
+++ b/internal/frames/error.go
@@ -2,6 +2,7 @@ package frames
 
 import (
 	"encoding/binary"
+	"unicode/utf8"
 )
 
 // https://rsocket.io/about/protocol#error-frame-0x0b
@@ -48,3 +49,20 @@ func (f *Error) Encode(buf []byte) {
 func (f *Error) Size() uint32 {
 	return uint32(FrameHeaderLen + 4 + len(f.Data))
 }
+
+// Shorten cuts the text of an error so that its frame takes at most
+// size bytes. Other frames are left as they are.
+func Shorten(f Frame, size uint32) Frame {
+	e, ok := f.(*Error)
+	if !ok || e.Size() <= size || size < FrameHeaderLen+4 {
+		return f
+	}
+	n := int(size) - FrameHeaderLen - 4
+	for cut := n; cut > n-utf8.UTFMax && cut > 0; cut-- {
+		if utf8.RuneStart(e.Data[cut]) {
+			n = cut
+			break
+		}
+	}
+	return &Error{StreamID: e.StreamID, Code: e.Code, Data: e.Data[:n]}
+}
diff --git a/transport/rsocket/tcp_conn.go b/transport/rsocket/tcp_conn.go
index 29e7804..5a88dca 100644
--- a/transport/rsocket/tcp_conn.go
+++ b/transport/rsocket/tcp_conn.go
@@ -102,6 +102,7 @@ func (p *TCPConn) Read() (f frames.Frame, err error) {
 
 // Write writes a frame.
 func (p *TCPConn) Write(frame frames.Frame) (err error) {
+	frame = frames.Shorten(frame, u24.MaxUint24)
 	size := frame.Size()
 	// if p.counter != nil && frame.Header().Resumable() {
 	// 	p.counter.IncWriteBytes(size)
diff --git a/transport/wasmrs/guest/guest.go b/transport/wasmrs/guest/guest.go
index 134c760..559ecf4 100644
--- a/transport/wasmrs/guest/guest.go
+++ b/transport/wasmrs/guest/guest.go
@@ -479,6 +479,9 @@ func sendFrame(f frames.Frame) error {
 }
 
 func doSendFrame(f frames.Frame) error {
+	if len(hostBuffer) > 3 {
+		f = frames.Shorten(f, uint32(len(hostBuffer)-3))
+	}
 	byteLength := f.Size()
 	if uint32(len(hostBuffer)) < byteLength+3 {
 		return errTooLarge
diff --git a/transport/wasmrs/host/instance.go b/transport/wasmrs/host/instance.go
index dcf8433..d497190 100644
--- a/transport/wasmrs/host/instance.go
+++ b/transport/wasmrs/host/instance.go
@@ -202,6 +202,9 @@ func (i *Instance) SendFrame(f frames.Frame) error {
 	// } else {
 	// 	i.sendCh <- f
 	// }
+	if i.sendSize > 3 {
+		f = frames.Shorten(f, i.sendSize-3)
+	}
 	if f.Size()+3 > i.sendSize {
 		return errTooLarge
 	}
-- 
2.43.0

