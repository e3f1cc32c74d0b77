From a83b64fad58ebfde2fae0ca79f204af80c7dbbac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:50 +0000
Subject: [PATCH 01/46] fix: deliver changes between included values, not
 between excluded ones

---
 pkg/resource/change.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pkg/resource/change.go b/pkg/resource/change.go
index b52cf69..54d9e3e 100644
--- a/pkg/resource/change.go
+++ b/pkg/resource/change.go
@@ -84,11 +84,12 @@ func (c *CollectionChange) include(includeFunc FilterFunc) (newChange *Collectio
 		return c, true
 	}
 
-	oldInclude := includeFunc(c.Id, c.OldValue)
-	newInclude := includeFunc(c.Id, c.NewValue)
+	// absent values are never included, includeFunc is only asked about values that exist
+	oldInclude := c.OldValue != nil && includeFunc(c.Id, c.OldValue)
+	newInclude := c.NewValue != nil && includeFunc(c.Id, c.NewValue)
 	if oldInclude == newInclude {
 		// the only time we want to skip sending the update is if both the old and new values are excluded
-		return c, !newInclude
+		return c, newInclude
 	}
 
 	if newInclude {
-- 
2.43.0


From a853f902f79ffb831117f4fd755c5e4efde58a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:36 +0000
Subject: [PATCH 02/46] fix: re-check existence when committing a collection
 write

Two concurrent creates of one id could both succeed, because the second read skipped the map lookup.
---
 pkg/resource/atomic.go     |  6 +++++-
 pkg/resource/collection.go | 17 ++++++++++++++---
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/pkg/resource/atomic.go b/pkg/resource/atomic.go
index 2753f30..0a339dc 100644
--- a/pkg/resource/atomic.go
+++ b/pkg/resource/atomic.go
@@ -30,6 +30,7 @@ type SaveFn func(msg proto.Message)
 // No locks will be held during the change call.
 //
 // An error will be returned if the value returned by get changes during the change call.
+// The get func is called a second time, holding mu.Lock, to detect this. Any error it returns is returned without saving.
 func GetAndUpdate(mu *sync.RWMutex, get GetFn, change ChangeFn, save SaveFn) (oldValue proto.Message, newValue proto.Message, err error) {
 	mu.RLock()
 	oldValue, err = get()
@@ -45,7 +46,10 @@ func GetAndUpdate(mu *sync.RWMutex, get GetFn, change ChangeFn, save SaveFn) (ol
 
 	mu.Lock()
 	defer mu.Unlock()
-	oldValueAgain, _ := get()
+	oldValueAgain, err := get()
+	if err != nil {
+		return oldValue, newValue, err
+	}
 	if !proto.Equal(oldValue, oldValueAgain) {
 		return oldValue, newValue, status.Errorf(codes.Aborted, "concurrent update detected")
 	}
diff --git a/pkg/resource/collection.go b/pkg/resource/collection.go
index 82fba45..cddf852 100644
--- a/pkg/resource/collection.go
+++ b/pkg/resource/collection.go
@@ -105,12 +105,12 @@ func (c *Collection) Update(id string, msg proto.Message, opts ...WriteOption) (
 	}
 
 	var created proto.Message // during create, this is returned by GetFn so concurrent reference checks pass
+	reread := false           // true when GetFn is called for the second time, to check for concurrent changes
 	oldValue, newValue, err := GetAndUpdate(
 		&c.mu,
 		func() (item proto.Message, err error) {
-			if created != nil {
-				return created, nil
-			}
+			isReread := reread
+			reread = true
 
 			// handle empty ids, generating them, and invoking callbacks
 			if id == "" && writeRequest.genEmptyID {
@@ -128,8 +128,19 @@ func (c *Collection) Update(id string, msg proto.Message, opts ...WriteOption) (
 				if writeRequest.expectAbsent {
 					return nil, ExpectAbsentPreconditionFailed
 				}
+				if created != nil {
+					// somebody else created the item while we were preparing to create it
+					return nil, status.Error(codes.Aborted, "concurrent update detected")
+				}
 				return val.body, nil
 			}
+			if created != nil {
+				return created, nil
+			}
+			if isReread {
+				// somebody else deleted the item while we were preparing to update it
+				return nil, status.Error(codes.Aborted, "concurrent update detected")
+			}
 			if !writeRequest.createIfAbsent {
 				return nil, status.Errorf(codes.NotFound, "id %v not found", id)
 			}
-- 
2.43.0


From 3b7707386a850bc699e3702efab6cca729bb035b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:37 +0000
Subject: [PATCH 03/46] fix: only report a collection item as created once it
 has been

---
 pkg/resource/collection.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/resource/collection.go b/pkg/resource/collection.go
index cddf852..ce93c69 100644
--- a/pkg/resource/collection.go
+++ b/pkg/resource/collection.go
@@ -145,9 +145,6 @@ func (c *Collection) Update(id string, msg proto.Message, opts ...WriteOption) (
 				return nil, status.Errorf(codes.NotFound, "id %v not found", id)
 			}
 			created = msg.ProtoReflect().New().Interface()
-			if writeRequest.createdCallback != nil {
-				writeRequest.createdCallback()
-			}
 			return created, nil
 		},
 		writeRequest.changeFn(writer, msg),
@@ -161,6 +158,9 @@ func (c *Collection) Update(id string, msg proto.Message, opts ...WriteOption) (
 		}
 		return nil, err
 	}
+	if created != nil && writeRequest.createdCallback != nil {
+		writeRequest.createdCallback()
+	}
 	changeType := types.ChangeType_UPDATE
 	if oldValue == nil || created != nil {
 		changeType = types.ChangeType_ADD
-- 
2.43.0


From 1ef2fc10463212f5c1ad6c758490bc5f7f22ca05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:40 +0000
Subject: [PATCH 04/46] fix: store items with generated ids under their
 intercepted id

Get, Update and Delete intercept the ids they are given, so an item stored under the id as generated was unreachable.
---
 pkg/resource/collection.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pkg/resource/collection.go b/pkg/resource/collection.go
index ce93c69..f125bac 100644
--- a/pkg/resource/collection.go
+++ b/pkg/resource/collection.go
@@ -94,11 +94,12 @@ func (c *Collection) Add(id string, body proto.Message, opts ...WriteOption) (pr
 }
 
 func (c *Collection) Update(id string, msg proto.Message, opts ...WriteOption) (proto.Message, error) {
-	if c.idInterceptor != nil {
+	writeRequest := ComputeWriteConfig(opts...)
+	if c.idInterceptor != nil && !(id == "" && writeRequest.genEmptyID) {
 		id = c.idInterceptor(id)
 	}
+	needsID := id == "" && writeRequest.genEmptyID
 
-	writeRequest := ComputeWriteConfig(opts...)
 	writer := writeRequest.fieldUpdater(c.writableFields)
 	if err := writer.Validate(msg); err != nil {
 		return nil, err
@@ -113,14 +114,19 @@ func (c *Collection) Update(id string, msg proto.Message, opts ...WriteOption) (
 			reread = true
 
 			// handle empty ids, generating them, and invoking callbacks
-			if id == "" && writeRequest.genEmptyID {
+			if needsID {
 				id, err = c.genID()
 				if err != nil {
 					return nil, err
 				}
+				needsID = false
 				if writeRequest.idCallback != nil {
 					writeRequest.idCallback(id)
 				}
+				// the generated id is treated like any other id, it is intercepted before it is used as a key
+				if c.idInterceptor != nil {
+					id = c.idInterceptor(id)
+				}
 			}
 
 			val, exists := c.byId[id]
-- 
2.43.0


From 2e1c877e8cb9e657a542323d7c5a964290948083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:10 +0000
Subject: [PATCH 05/46] fix: don't share random sources between concurrent id
 generations

---
 pkg/resource/collection.go         | 7 +++++--
 pkg/trait/electricpb/model_opts.go | 5 ++++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/pkg/resource/collection.go b/pkg/resource/collection.go
index f125bac..95c9eb6 100644
--- a/pkg/resource/collection.go
+++ b/pkg/resource/collection.go
@@ -19,8 +19,9 @@ import (
 type Collection struct {
 	*config
 
-	mu   sync.RWMutex // protects byId and rng from concurrent access
-	byId map[string]*item
+	mu    sync.RWMutex // protects byId from concurrent access
+	byId  map[string]*item
+	rngMu sync.Mutex // protects rng from concurrent access, ids are generated while mu is held for reading only
 	// "change" events contain a *CollectionChange instance
 	bus minibus.Bus
 }
@@ -360,6 +361,8 @@ func (c *Collection) itemSlice(readConfig *ReadRequest) []idItem {
 }
 
 func (c *Collection) genID() (string, error) {
+	c.rngMu.Lock()
+	defer c.rngMu.Unlock()
 	return GenerateUniqueId(c.rng, func(candidate string) bool {
 		if c.idInterceptor != nil {
 			candidate = c.idInterceptor(candidate)
diff --git a/pkg/trait/electricpb/model_opts.go b/pkg/trait/electricpb/model_opts.go
index b102855..01e7078 100644
--- a/pkg/trait/electricpb/model_opts.go
+++ b/pkg/trait/electricpb/model_opts.go
@@ -22,7 +22,10 @@ var DefaultModelOptions = []resource.Option{
 	WithActiveModeOption(resource.WithNoDuplicates()),
 	WithModeOption(resource.WithNoDuplicates()),
 	WithClock(clock.Real()),
-	WithRNG(rand.New(rand.NewSource(rand.Int63()))),
+	// a *rand.Rand isn't safe for concurrent use so each model needs its own
+	modelOptionFunc(func(args *modelArgs) {
+		args.apply(WithRNG(rand.New(rand.NewSource(rand.Int63()))))
+	}),
 }
 var defaultInitialVoltage float32 = 240
 
-- 
2.43.0


From 001a504384616479fb882dec5f9d7bb991ea8b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:11 +0000
Subject: [PATCH 06/46] fix: report the stored change time in change events

The clock was read again for the event, and deletes ignored WithWriteTime.
---
 pkg/resource/collection.go | 8 +++++---
 pkg/resource/value.go      | 6 ++++--
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/pkg/resource/collection.go b/pkg/resource/collection.go
index 95c9eb6..c4be249 100644
--- a/pkg/resource/collection.go
+++ b/pkg/resource/collection.go
@@ -108,6 +108,7 @@ func (c *Collection) Update(id string, msg proto.Message, opts ...WriteOption) (
 
 	var created proto.Message // during create, this is returned by GetFn so concurrent reference checks pass
 	reread := false           // true when GetFn is called for the second time, to check for concurrent changes
+	var changeTime time.Time  // what we stored as the change time, reported by the event too
 	oldValue, newValue, err := GetAndUpdate(
 		&c.mu,
 		func() (item proto.Message, err error) {
@@ -156,7 +157,8 @@ func (c *Collection) Update(id string, msg proto.Message, opts ...WriteOption) (
 		},
 		writeRequest.changeFn(writer, msg),
 		func(msg proto.Message) {
-			c.byId[id] = &item{body: msg, changeTime: writeRequest.updateTime(c.clock)}
+			changeTime = writeRequest.updateTime(c.clock)
+			c.byId[id] = &item{body: msg, changeTime: changeTime}
 		})
 
 	if err != nil {
@@ -175,7 +177,7 @@ func (c *Collection) Update(id string, msg proto.Message, opts ...WriteOption) (
 	}
 	c.bus.Send(context.TODO(), &CollectionChange{
 		Id:         id,
-		ChangeTime: writeRequest.updateTime(c.clock),
+		ChangeTime: changeTime,
 		ChangeType: changeType,
 		OldValue:   oldValue,
 		NewValue:   newValue,
@@ -227,7 +229,7 @@ func (c *Collection) Delete(id string, opts ...WriteOption) (proto.Message, erro
 		delete(c.byId, id)
 		c.bus.Send(context.TODO(), &CollectionChange{
 			Id:         id,
-			ChangeTime: c.clock.Now(),
+			ChangeTime: args.updateTime(c.clock),
 			ChangeType: types.ChangeType_REMOVE,
 			OldValue:   oldVal.body,
 		})
diff --git a/pkg/resource/value.go b/pkg/resource/value.go
index 1a81a43..b6701b0 100644
--- a/pkg/resource/value.go
+++ b/pkg/resource/value.go
@@ -58,6 +58,7 @@ func (r *Value) set(value proto.Message, request WriteRequest) (proto.Message, e
 		return nil, err
 	}
 
+	var changeTime time.Time // what we stored as the change time, reported by the event too
 	disarm := timeoutAlarm(time.Second, "GetAndUpdate took too long")
 	_, newValue, err := GetAndUpdate(
 		&r.mu,
@@ -67,7 +68,8 @@ func (r *Value) set(value proto.Message, request WriteRequest) (proto.Message, e
 		request.changeFn(writer, value),
 		func(message proto.Message) {
 			r.value = message
-			r.changeTime = request.updateTime(r.clock)
+			changeTime = request.updateTime(r.clock)
+			r.changeTime = changeTime
 		},
 	)
 	disarm()
@@ -80,7 +82,7 @@ func (r *Value) set(value proto.Message, request WriteRequest) (proto.Message, e
 	defer cancel()
 	r.bus.Send(ctx, &ValueChange{
 		Value:      newValue,
-		ChangeTime: request.updateTime(r.clock),
+		ChangeTime: changeTime,
 	})
 	if errors.Is(ctx.Err(), context.DeadlineExceeded) {
 		return nil, errors.New("bus.Send blocked for too long")
-- 
2.43.0


From a8a4ea7cfa2e1aab0139defda4955298a808ec9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:24 +0000
Subject: [PATCH 07/46] fix: publish changes in the order they were committed

Events were sent after releasing the write lock with nothing ordering them, so an event could overtake the event of a
later commit leaving subscribers with a stale value. Delete ordered its event by sending while holding the lock, which
deadlocks with a subscriber that reads from the collection while handling an earlier event.
---
 pkg/resource/collection.go | 23 ++++++++++++++++++-----
 pkg/resource/publish.go    | 21 +++++++++++++++++++++
 pkg/resource/value.go      | 10 ++++++++++
 3 files changed, 49 insertions(+), 5 deletions(-)
 create mode 100644 pkg/resource/publish.go

diff --git a/pkg/resource/collection.go b/pkg/resource/collection.go
index c4be249..89293d0 100644
--- a/pkg/resource/collection.go
+++ b/pkg/resource/collection.go
@@ -24,6 +24,8 @@ type Collection struct {
 	rngMu sync.Mutex // protects rng from concurrent access, ids are generated while mu is held for reading only
 	// "change" events contain a *CollectionChange instance
 	bus minibus.Bus
+	// orders calls to bus.Send, protected by mu
+	publish publishQueue
 }
 
 func NewCollection(options ...Option) *Collection {
@@ -109,6 +111,8 @@ func (c *Collection) Update(id string, msg proto.Message, opts ...WriteOption) (
 	var created proto.Message // during create, this is returned by GetFn so concurrent reference checks pass
 	reread := false           // true when GetFn is called for the second time, to check for concurrent changes
 	var changeTime time.Time  // what we stored as the change time, reported by the event too
+	var turn <-chan struct{}  // closed when it's our turn to publish the change
+	var published func()
 	oldValue, newValue, err := GetAndUpdate(
 		&c.mu,
 		func() (item proto.Message, err error) {
@@ -159,6 +163,7 @@ func (c *Collection) Update(id string, msg proto.Message, opts ...WriteOption) (
 		func(msg proto.Message) {
 			changeTime = writeRequest.updateTime(c.clock)
 			c.byId[id] = &item{body: msg, changeTime: changeTime}
+			turn, published = c.publish.join()
 		})
 
 	if err != nil {
@@ -167,14 +172,12 @@ func (c *Collection) Update(id string, msg proto.Message, opts ...WriteOption) (
 		}
 		return nil, err
 	}
-	if created != nil && writeRequest.createdCallback != nil {
-		writeRequest.createdCallback()
-	}
 	changeType := types.ChangeType_UPDATE
 	if oldValue == nil || created != nil {
 		changeType = types.ChangeType_ADD
 		oldValue = nil
 	}
+	<-turn
 	c.bus.Send(context.TODO(), &CollectionChange{
 		Id:         id,
 		ChangeTime: changeTime,
@@ -182,6 +185,11 @@ func (c *Collection) Update(id string, msg proto.Message, opts ...WriteOption) (
 		OldValue:   oldValue,
 		NewValue:   newValue,
 	})
+	published()
+
+	if created != nil && writeRequest.createdCallback != nil {
+		writeRequest.createdCallback()
+	}
 	return newValue, nil
 }
 
@@ -227,13 +235,18 @@ func (c *Collection) Delete(id string, opts ...WriteOption) (proto.Message, erro
 
 		// actually do the delete
 		delete(c.byId, id)
+		changeTime := args.updateTime(c.clock)
+		turn, published := c.publish.join()
+		c.mu.Unlock()
+
+		defer published()
+		<-turn
 		c.bus.Send(context.TODO(), &CollectionChange{
 			Id:         id,
-			ChangeTime: args.updateTime(c.clock),
+			ChangeTime: changeTime,
 			ChangeType: types.ChangeType_REMOVE,
 			OldValue:   oldVal.body,
 		})
-		c.mu.Unlock()
 		return oldVal.body, nil
 	}
 
diff --git a/pkg/resource/publish.go b/pkg/resource/publish.go
new file mode 100644
index 0000000..11bd9c2
--- /dev/null
+++ b/pkg/resource/publish.go
@@ -0,0 +1,21 @@
+package resource
+
+// publishQueue makes sure changes are published in the same order they were committed.
+// Writers join the queue while holding the lock that guards the data they are changing,
+// then wait for their turn to publish after that lock has been released.
+type publishQueue struct {
+	last chan struct{} // closed when the most recent writer to join is done, nil if there isn't one
+}
+
+// join adds the caller to the end of the queue.
+// The returned turn is closed when everybody ahead of the caller is done.
+// The caller must call done once they have published, or to give up their place in the queue.
+func (q *publishQueue) join() (turn <-chan struct{}, done func()) {
+	prev, next := q.last, make(chan struct{})
+	if prev == nil {
+		prev = make(chan struct{})
+		close(prev)
+	}
+	q.last = next
+	return prev, func() { close(next) }
+}
diff --git a/pkg/resource/value.go b/pkg/resource/value.go
index b6701b0..3a05e59 100644
--- a/pkg/resource/value.go
+++ b/pkg/resource/value.go
@@ -22,6 +22,8 @@ type Value struct {
 	changeTime time.Time
 
 	bus minibus.Bus
+	// orders calls to bus.Send, protected by mu
+	publish publishQueue
 }
 
 func NewValue(opts ...Option) *Value {
@@ -59,6 +61,8 @@ func (r *Value) set(value proto.Message, request WriteRequest) (proto.Message, e
 	}
 
 	var changeTime time.Time // what we stored as the change time, reported by the event too
+	var turn <-chan struct{} // closed when it's our turn to publish the change
+	var published func()
 	disarm := timeoutAlarm(time.Second, "GetAndUpdate took too long")
 	_, newValue, err := GetAndUpdate(
 		&r.mu,
@@ -70,6 +74,7 @@ func (r *Value) set(value proto.Message, request WriteRequest) (proto.Message, e
 			r.value = message
 			changeTime = request.updateTime(r.clock)
 			r.changeTime = changeTime
+			turn, published = r.publish.join()
 		},
 	)
 	disarm()
@@ -78,8 +83,13 @@ func (r *Value) set(value proto.Message, request WriteRequest) (proto.Message, e
 		return nil, err
 	}
 
+	defer published()
 	ctx, cancel := context.WithTimeout(context.TODO(), time.Second*5)
 	defer cancel()
+	select {
+	case <-turn:
+	case <-ctx.Done():
+	}
 	r.bus.Send(ctx, &ValueChange{
 		Value:      newValue,
 		ChangeTime: changeTime,
-- 
2.43.0


From a445312e3a5b69a7e451aa826e33a42f7b4277be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:46 +0000
Subject: [PATCH 08/46] fix: compare changes with what the subscriber has when
 suppressing equivalent changes

Value compared the first change with the unfiltered seed. Collection compared each change with its old value, which the
subscriber doesn't have if earlier changes were suppressed.
---
 pkg/resource/collection.go | 21 +++++++++++++++++++--
 pkg/resource/value.go      |  3 ++-
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/pkg/resource/collection.go b/pkg/resource/collection.go
index 89293d0..980aa39 100644
--- a/pkg/resource/collection.go
+++ b/pkg/resource/collection.go
@@ -263,6 +263,9 @@ func (c *Collection) Pull(ctx context.Context, opts ...ReadOption) <-chan *Colle
 	go func() {
 		defer close(send)
 
+		// the value the subscriber has for each id, only tracked when needed to suppress equivalent changes
+		held := make(map[string]proto.Message)
+
 		if len(currentValues) > 0 {
 			sort.Slice(currentValues, func(i, j int) bool {
 				return currentValues[i].id < currentValues[j].id
@@ -283,6 +286,9 @@ func (c *Collection) Pull(ctx context.Context, opts ...ReadOption) <-chan *Colle
 					return
 				case send <- change:
 				}
+				if c.equivalence != nil {
+					held[change.Id] = change.NewValue
+				}
 			}
 		}
 
@@ -293,8 +299,19 @@ func (c *Collection) Pull(ctx context.Context, opts ...ReadOption) <-chan *Colle
 				continue
 			}
 			change = change.filter(filter)
-			if c.equivalence != nil && c.equivalence.Compare(change.OldValue, change.NewValue) {
-				continue
+			if c.equivalence != nil {
+				last, ok := held[change.Id]
+				if !ok {
+					last = change.OldValue
+				}
+				if c.equivalence.Compare(last, change.NewValue) {
+					continue
+				}
+				if change.NewValue == nil {
+					delete(held, change.Id)
+				} else {
+					held[change.Id] = change.NewValue
+				}
 			}
 			select {
 			case send <- change:
diff --git a/pkg/resource/value.go b/pkg/resource/value.go
index 3a05e59..70b9c8f 100644
--- a/pkg/resource/value.go
+++ b/pkg/resource/value.go
@@ -113,6 +113,7 @@ func (r *Value) Pull(ctx context.Context, opts ...ReadOption) <-chan *ValueChang
 	go func() {
 		defer close(typedEvents)
 
+		var last proto.Message // what the subscriber has, if anything
 		if currentValue != nil {
 			change := &ValueChange{Value: currentValue, ChangeTime: changeTime, SeedValue: true, LastSeedValue: true}
 			change = change.filter(filter)
@@ -121,9 +122,9 @@ func (r *Value) Pull(ctx context.Context, opts ...ReadOption) <-chan *ValueChang
 				return // give up sending
 			case typedEvents <- change:
 			}
+			last = change.Value
 		}
 
-		last := currentValue
 		for event := range on {
 			change := event.(*ValueChange).filter(filter)
 			if r.equivalence != nil && r.equivalence.Compare(last, change.Value) {
-- 
2.43.0


From 02a392cde6166f214660968c7ca44f977ae6b88c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:49 +0000
Subject: [PATCH 09/46] fix: end the subscription behind PullID when the item
 is removed

Nothing received from the underlying subscription after PullID returned, leaking its goroutines and, with backpressure,
blocking every following write. The subscription is also opened before PullID returns, so updates made after it returns
are seen when only asking for updates.
---
 pkg/resource/collection.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/resource/collection.go b/pkg/resource/collection.go
index 980aa39..bd3d90c 100644
--- a/pkg/resource/collection.go
+++ b/pkg/resource/collection.go
@@ -331,10 +331,14 @@ func (c *Collection) PullID(ctx context.Context, id string, opts ...ReadOption)
 		id = c.idInterceptor(id)
 	}
 
+	// we might stop before ctx is done, make sure the underlying subscription stops too
+	ctx, stop := context.WithCancel(ctx)
+	changes := c.Pull(ctx, opts...)
 	send := make(chan *ValueChange)
 	go func() {
 		defer close(send)
-		for change := range c.Pull(ctx, opts...) {
+		defer stop()
+		for change := range changes {
 			if change.Id != id {
 				continue
 			}
-- 
2.43.0


From 268dae18e5a60a3e372385ed26459e0b4d71bd02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:33 +0000
Subject: [PATCH 10/46] fix: don't leak model Pull goroutines when the
 subscriber goes away

The resource closes its channel when ctx is done, but that doesn't help a goroutine that's already sending.
---
 pkg/trait/accesspb/model.go           |  6 +++++-
 pkg/trait/airqualitysensorpb/model.go |  6 +++++-
 pkg/trait/airtemperaturepb/model.go   |  6 +++++-
 pkg/trait/electricpb/model.go         | 19 +++++++++++++++----
 pkg/trait/energystoragepb/model.go    |  6 +++++-
 pkg/trait/lightpb/model.go            |  6 +++++-
 pkg/trait/meterpb/model.go            |  6 +++++-
 pkg/trait/occupancysensorpb/model.go  |  6 +++++-
 pkg/trait/onoffpb/model.go            |  6 +++++-
 pkg/trait/parentpb/model.go           |  6 +++++-
 pkg/trait/presspb/model.go            |  6 +++++-
 pkg/trait/wastepb/model.go            |  6 +++++-
 12 files changed, 70 insertions(+), 15 deletions(-)

diff --git a/pkg/trait/accesspb/model.go b/pkg/trait/accesspb/model.go
index d80e66c..0eb27c9 100644
--- a/pkg/trait/accesspb/model.go
+++ b/pkg/trait/accesspb/model.go
@@ -41,9 +41,13 @@ func (m *Model) PullAccessAttempts(ctx context.Context, opts ...resource.ReadOpt
 		defer close(send)
 		for change := range recv {
 			value := change.Value.(*traits.AccessAttempt)
-			send <- PullAccessAttemptsChange{
+			select {
+			case <-ctx.Done():
+				return
+			case send <- PullAccessAttemptsChange{
 				Value:      value,
 				ChangeTime: change.ChangeTime,
+			}:
 			}
 		}
 	}()
diff --git a/pkg/trait/airqualitysensorpb/model.go b/pkg/trait/airqualitysensorpb/model.go
index 4903204..cc059c4 100644
--- a/pkg/trait/airqualitysensorpb/model.go
+++ b/pkg/trait/airqualitysensorpb/model.go
@@ -39,9 +39,13 @@ func (m *Model) PullAirQuality(ctx context.Context, opts ...resource.ReadOption)
 		defer close(send)
 		for change := range recv {
 			value := change.Value.(*traits.AirQuality)
-			send <- PullAirQualityChange{
+			select {
+			case <-ctx.Done():
+				return
+			case send <- PullAirQualityChange{
 				Value:      value,
 				ChangeTime: change.ChangeTime,
+			}:
 			}
 		}
 	}()
diff --git a/pkg/trait/airtemperaturepb/model.go b/pkg/trait/airtemperaturepb/model.go
index bb14527..3f77644 100644
--- a/pkg/trait/airtemperaturepb/model.go
+++ b/pkg/trait/airtemperaturepb/model.go
@@ -39,9 +39,13 @@ func (m *Model) PullAirTemperature(ctx context.Context, opts ...resource.ReadOpt
 		defer close(send)
 		for change := range recv {
 			value := change.Value.(*traits.AirTemperature)
-			send <- PullAirTemperatureChange{
+			select {
+			case <-ctx.Done():
+				return
+			case send <- PullAirTemperatureChange{
 				Value:      value,
 				ChangeTime: change.ChangeTime,
+			}:
 			}
 		}
 	}()
diff --git a/pkg/trait/electricpb/model.go b/pkg/trait/electricpb/model.go
index 585c87d..99fc037 100644
--- a/pkg/trait/electricpb/model.go
+++ b/pkg/trait/electricpb/model.go
@@ -78,9 +78,13 @@ func (m *Model) PullDemand(ctx context.Context, opts ...resource.ReadOption) <-c
 		defer close(send)
 		for change := range recv {
 			demand := change.Value.(*traits.ElectricDemand)
-			send <- PullDemandChange{
+			select {
+			case <-ctx.Done():
+				return
+			case send <- PullDemandChange{
 				Value:      demand,
 				ChangeTime: change.ChangeTime,
+			}:
 			}
 		}
 	}()
@@ -121,9 +125,13 @@ func (m *Model) PullActiveMode(ctx context.Context, opts ...resource.ReadOption)
 		defer close(send)
 		for change := range recv {
 			activeMode := change.Value.(*traits.ElectricMode)
-			send <- PullActiveModeChange{
+			select {
+			case <-ctx.Done():
+				return
+			case send <- PullActiveModeChange{
 				ActiveMode: activeMode,
 				ChangeTime: change.ChangeTime,
+			}:
 			}
 		}
 	}()
@@ -328,7 +336,6 @@ func (m *Model) PullModes(ctx context.Context, opts ...resource.ReadOption) <-ch
 
 	go func() {
 		defer close(send)
-		// no need to listen to ctx.Done, as modes.Pull does that.
 		for change := range recv {
 			var newValue, oldValue *traits.ElectricMode
 			if change.NewValue != nil {
@@ -344,7 +351,11 @@ func (m *Model) PullModes(ctx context.Context, opts ...resource.ReadOption) <-ch
 				NewValue:   newValue,
 				OldValue:   oldValue,
 			}
-			send <- pullChange
+			select {
+			case <-ctx.Done():
+				return
+			case send <- pullChange:
+			}
 		}
 	}()
 
diff --git a/pkg/trait/energystoragepb/model.go b/pkg/trait/energystoragepb/model.go
index ef06c0b..095f5fb 100644
--- a/pkg/trait/energystoragepb/model.go
+++ b/pkg/trait/energystoragepb/model.go
@@ -45,9 +45,13 @@ func (m *Model) PullEnergyLevel(ctx context.Context, opts ...resource.ReadOption
 		defer close(send)
 		for change := range recv {
 			demand := change.Value.(*traits.EnergyLevel)
-			send <- PullEnergyLevelChange{
+			select {
+			case <-ctx.Done():
+				return
+			case send <- PullEnergyLevelChange{
 				Value:      demand,
 				ChangeTime: change.ChangeTime,
+			}:
 			}
 		}
 	}()
diff --git a/pkg/trait/lightpb/model.go b/pkg/trait/lightpb/model.go
index 10c40b6..ff0b583 100644
--- a/pkg/trait/lightpb/model.go
+++ b/pkg/trait/lightpb/model.go
@@ -44,9 +44,13 @@ func (m *Model) PullBrightness(ctx context.Context, opts ...resource.ReadOption)
 		defer close(send)
 		for change := range recv {
 			value := change.Value.(*traits.Brightness)
-			send <- PullBrightnessChange{
+			select {
+			case <-ctx.Done():
+				return
+			case send <- PullBrightnessChange{
 				Value:      value,
 				ChangeTime: change.ChangeTime,
+			}:
 			}
 		}
 	}()
diff --git a/pkg/trait/meterpb/model.go b/pkg/trait/meterpb/model.go
index bfccd5a..220e3a3 100644
--- a/pkg/trait/meterpb/model.go
+++ b/pkg/trait/meterpb/model.go
@@ -72,9 +72,13 @@ func (m *Model) PullMeterReadings(ctx context.Context, opts ...resource.ReadOpti
 		defer close(send)
 		for change := range recv {
 			value := change.Value.(*traits.MeterReading)
-			send <- PullMeterReadingChange{
+			select {
+			case <-ctx.Done():
+				return
+			case send <- PullMeterReadingChange{
 				Value:      value,
 				ChangeTime: change.ChangeTime,
+			}:
 			}
 		}
 	}()
diff --git a/pkg/trait/occupancysensorpb/model.go b/pkg/trait/occupancysensorpb/model.go
index 05fca65..77daed9 100644
--- a/pkg/trait/occupancysensorpb/model.go
+++ b/pkg/trait/occupancysensorpb/model.go
@@ -40,9 +40,13 @@ func (m *Model) PullOccupancy(ctx context.Context, opts ...resource.ReadOption)
 		defer close(send)
 		for change := range recv {
 			value := change.Value.(*traits.Occupancy)
-			send <- PullOccupancyChange{
+			select {
+			case <-ctx.Done():
+				return
+			case send <- PullOccupancyChange{
 				Value:      value,
 				ChangeTime: change.ChangeTime,
+			}:
 			}
 		}
 	}()
diff --git a/pkg/trait/onoffpb/model.go b/pkg/trait/onoffpb/model.go
index 0870db7..e505b3d 100644
--- a/pkg/trait/onoffpb/model.go
+++ b/pkg/trait/onoffpb/model.go
@@ -39,9 +39,13 @@ func (m *Model) PullOnOff(ctx context.Context, opts ...resource.ReadOption) <-ch
 		defer close(send)
 		for change := range recv {
 			value := change.Value.(*traits.OnOff)
-			send <- PullOnOffChange{
+			select {
+			case <-ctx.Done():
+				return
+			case send <- PullOnOffChange{
 				Value:      value,
 				ChangeTime: change.ChangeTime,
+			}:
 			}
 		}
 	}()
diff --git a/pkg/trait/parentpb/model.go b/pkg/trait/parentpb/model.go
index a7a8c95..041a09f 100644
--- a/pkg/trait/parentpb/model.go
+++ b/pkg/trait/parentpb/model.go
@@ -118,7 +118,11 @@ func (m *Model) PullChildren(ctx context.Context, opts ...resource.ReadOption) <
 	go func() {
 		defer close(out)
 		for change := range changes {
-			out <- childrenChangeToProto(change)
+			select {
+			case <-ctx.Done():
+				return
+			case out <- childrenChangeToProto(change):
+			}
 		}
 	}()
 
diff --git a/pkg/trait/presspb/model.go b/pkg/trait/presspb/model.go
index c025d14..d4599da 100644
--- a/pkg/trait/presspb/model.go
+++ b/pkg/trait/presspb/model.go
@@ -40,10 +40,14 @@ func (m *Model) PullPressedState(ctx context.Context, options ...resource.ReadOp
 		defer close(tx)
 		for change := range rx {
 			value := change.Value.(*traits.PressedState)
-			tx <- PullPressedStateChange{
+			select {
+			case <-ctx.Done():
+				return
+			case tx <- PullPressedStateChange{
 				Value:         value,
 				ChangeTime:    change.ChangeTime,
 				LastSeedValue: change.LastSeedValue,
+			}:
 			}
 		}
 	}()
diff --git a/pkg/trait/wastepb/model.go b/pkg/trait/wastepb/model.go
index 7db9ec5..55eb980 100644
--- a/pkg/trait/wastepb/model.go
+++ b/pkg/trait/wastepb/model.go
@@ -143,7 +143,11 @@ func (m *Model) PullWasteRecords(ctx context.Context, opts ...resource.ReadOptio
 				ChangeTime: wr.WasteCreateTime,
 				Type:       types.ChangeType_ADD,
 			}
-			send <- change
+			select {
+			case <-ctx.Done():
+				return
+			case send <- change:
+			}
 		}
 	}()
 
-- 
2.43.0


From 201deafbb687f18768de63a3b05f4d64e3ed1f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:51 +0000
Subject: [PATCH 11/46] fix: subscribe before returning from model Pull methods

Changes made between Pull returning and its goroutine starting were not seen by updates only subscribers.
---
 pkg/trait/bookingpb/model.go          |  3 ++-
 pkg/trait/enterleavesensorpb/model.go |  3 ++-
 pkg/trait/fanspeedpb/model.go         |  3 ++-
 pkg/trait/hailpb/model.go             |  6 ++++--
 pkg/trait/modepb/model.go             |  3 ++-
 pkg/trait/openclosepb/model.go        |  3 ++-
 pkg/trait/publicationpb/model.go      |  6 ++++--
 pkg/trait/vendingpb/model.go          | 12 ++++++++----
 8 files changed, 26 insertions(+), 13 deletions(-)

diff --git a/pkg/trait/bookingpb/model.go b/pkg/trait/bookingpb/model.go
index c887ace..c1d4af2 100644
--- a/pkg/trait/bookingpb/model.go
+++ b/pkg/trait/bookingpb/model.go
@@ -67,9 +67,10 @@ type BookingChange struct {
 func (m *Model) PullBookings(ctx context.Context, opts ...resource.ReadOption) <-chan BookingChange {
 	send := make(chan BookingChange)
 
+	recv := m.bookings.Pull(ctx, opts...)
 	go func() {
 		defer close(send)
-		for change := range m.bookings.Pull(ctx, opts...) {
+		for change := range recv {
 			event := BookingChange{
 				ChangeTime: change.ChangeTime,
 				ChangeType: change.ChangeType,
diff --git a/pkg/trait/enterleavesensorpb/model.go b/pkg/trait/enterleavesensorpb/model.go
index 953c1ec..a315b9e 100644
--- a/pkg/trait/enterleavesensorpb/model.go
+++ b/pkg/trait/enterleavesensorpb/model.go
@@ -64,9 +64,10 @@ type EnterLeaveEventChange struct {
 // The returned chan will be closed when the given context is Done.
 func (m *Model) PullEnterLeaveEvents(ctx context.Context, opts ...resource.ReadOption) <-chan EnterLeaveEventChange {
 	send := make(chan EnterLeaveEventChange)
+	recv := m.enterLeaveEvents.Pull(ctx, opts...)
 	go func() {
 		defer close(send)
-		for change := range m.enterLeaveEvents.Pull(ctx, opts...) {
+		for change := range recv {
 			val := change.Value.(*traits.EnterLeaveEvent)
 			if change.LastSeedValue {
 				// when sending the initial data (not an update), the occupant and direction should be absent.
diff --git a/pkg/trait/fanspeedpb/model.go b/pkg/trait/fanspeedpb/model.go
index 84a4d1d..56b76ce 100644
--- a/pkg/trait/fanspeedpb/model.go
+++ b/pkg/trait/fanspeedpb/model.go
@@ -137,9 +137,10 @@ type FanSpeedChange struct {
 
 func (m *Model) PullFanSpeed(ctx context.Context, opts ...resource.ReadOption) <-chan FanSpeedChange {
 	send := make(chan FanSpeedChange)
+	recv := m.fanSpeed.Pull(ctx, opts...)
 	go func() {
 		defer close(send)
-		for change := range m.fanSpeed.Pull(ctx, opts...) {
+		for change := range recv {
 			val := change.Value.(*traits.FanSpeed)
 			select {
 			case <-ctx.Done():
diff --git a/pkg/trait/hailpb/model.go b/pkg/trait/hailpb/model.go
index d971fbe..f6b348d 100644
--- a/pkg/trait/hailpb/model.go
+++ b/pkg/trait/hailpb/model.go
@@ -72,9 +72,10 @@ type HailChange struct {
 // The returned channel is closed when ctx is Done or the hail identified by id is deleted.
 func (m *Model) PullHail(ctx context.Context, id string, opts ...resource.ReadOption) <-chan HailChange {
 	send := make(chan HailChange)
+	recv := m.hails.PullID(ctx, id, opts...)
 	go func() {
 		defer close(send)
-		for change := range m.hails.PullID(ctx, id, opts...) {
+		for change := range recv {
 			select {
 			case <-ctx.Done():
 				return
@@ -103,9 +104,10 @@ type HailsChange struct {
 
 func (m *Model) PullHails(ctx context.Context, opts ...resource.ReadOption) <-chan HailsChange {
 	send := make(chan HailsChange)
+	recv := m.hails.Pull(ctx, opts...)
 	go func() {
 		defer close(send)
-		for change := range m.hails.Pull(ctx, opts...) {
+		for change := range recv {
 			oldVal, newVal := castChange(change)
 			event := HailsChange{
 				ChangeType: change.ChangeType,
diff --git a/pkg/trait/modepb/model.go b/pkg/trait/modepb/model.go
index 4c29e3b..33f7038 100644
--- a/pkg/trait/modepb/model.go
+++ b/pkg/trait/modepb/model.go
@@ -79,9 +79,10 @@ type ModeValuesChange struct {
 func (m *Model) PullModeValues(ctx context.Context, opts ...resource.ReadOption) <-chan ModeValuesChange {
 	send := make(chan ModeValuesChange)
 
+	recv := m.modeValues.Pull(ctx, opts...)
 	go func() {
 		defer close(send)
-		for change := range m.modeValues.Pull(ctx, opts...) {
+		for change := range recv {
 			val := change.Value.(*traits.ModeValues)
 			select {
 			case <-ctx.Done():
diff --git a/pkg/trait/openclosepb/model.go b/pkg/trait/openclosepb/model.go
index 1b8c8a7..a32bc5a 100644
--- a/pkg/trait/openclosepb/model.go
+++ b/pkg/trait/openclosepb/model.go
@@ -108,13 +108,14 @@ func (m *Model) PullPositions(ctx context.Context, ops ...resource.ReadOption) <
 	eq := cmp.Equal()
 
 	send := make(chan PullOpenClosePositionsChange)
+	recv := m.positions.Pull(ctx)
 	go func() {
 		defer close(send)
 		all := make(map[string]*traits.OpenClosePosition, 1)
 		seenAll := false
 		var last *traits.OpenClosePositions
 
-		for change := range m.positions.Pull(ctx) {
+		for change := range recv {
 			if change.NewValue == nil {
 				delete(all, change.Id)
 			} else {
diff --git a/pkg/trait/publicationpb/model.go b/pkg/trait/publicationpb/model.go
index db0d033..5ead0c9 100644
--- a/pkg/trait/publicationpb/model.go
+++ b/pkg/trait/publicationpb/model.go
@@ -62,9 +62,10 @@ type PublicationChange struct {
 
 func (m *Model) PullPublication(ctx context.Context, id string, opts ...resource.ReadOption) <-chan PublicationChange {
 	send := make(chan PublicationChange)
+	recv := m.publications.PullID(ctx, id, opts...)
 	go func() {
 		defer close(send)
-		for change := range m.publications.PullID(ctx, id, opts...) {
+		for change := range recv {
 			select {
 			case <-ctx.Done():
 				return
@@ -94,9 +95,10 @@ type PublicationsChange struct {
 
 func (m *Model) PullPublications(ctx context.Context, opts ...resource.ReadOption) <-chan PublicationsChange {
 	send := make(chan PublicationsChange)
+	recv := m.publications.Pull(ctx, opts...)
 	go func() {
 		defer close(send)
-		for change := range m.publications.Pull(ctx, opts...) {
+		for change := range recv {
 			event := PublicationsChange{
 				ID:         change.Id,
 				ChangeTime: change.ChangeTime,
diff --git a/pkg/trait/vendingpb/model.go b/pkg/trait/vendingpb/model.go
index 19267be..ae5074d 100644
--- a/pkg/trait/vendingpb/model.go
+++ b/pkg/trait/vendingpb/model.go
@@ -68,9 +68,10 @@ type ConsumableChange struct {
 
 func (m *Model) PullConsumable(ctx context.Context, name string, opts ...resource.ReadOption) <-chan ConsumableChange {
 	send := make(chan ConsumableChange)
+	recv := m.consumables.PullID(ctx, name, opts...)
 	go func() {
 		defer close(send)
-		for change := range m.consumables.PullID(ctx, name, opts...) {
+		for change := range recv {
 			select {
 			case <-ctx.Done():
 				return
@@ -100,9 +101,10 @@ type ConsumablesChange struct {
 
 func (m *Model) PullConsumables(ctx context.Context, opts ...resource.ReadOption) <-chan ConsumablesChange {
 	send := make(chan ConsumablesChange)
+	recv := m.consumables.Pull(ctx, opts...)
 	go func() {
 		defer close(send)
-		for change := range m.consumables.Pull(ctx, opts...) {
+		for change := range recv {
 			oldVal, newVal := castConsumableChange(change)
 			event := ConsumablesChange{
 				ID:         change.Id,
@@ -159,9 +161,10 @@ type StockChange struct {
 // The returned channel will be closed if ctx is Done or the stock record identified by consumable is deleted.
 func (m *Model) PullStock(ctx context.Context, consumable string, opts ...resource.ReadOption) <-chan StockChange {
 	send := make(chan StockChange)
+	recv := m.inventory.PullID(ctx, consumable, opts...)
 	go func() {
 		defer close(send)
-		for change := range m.inventory.PullID(ctx, consumable, opts...) {
+		for change := range recv {
 			select {
 			case <-ctx.Done():
 				return
@@ -193,9 +196,10 @@ type InventoryChange struct {
 // PullInventory subscribes to changes in the list of known stock records.
 func (m *Model) PullInventory(ctx context.Context, opts ...resource.ReadOption) <-chan InventoryChange {
 	send := make(chan InventoryChange)
+	recv := m.inventory.Pull(ctx, opts...)
 	go func() {
 		defer close(send)
-		for change := range m.inventory.Pull(ctx, opts...) {
+		for change := range recv {
 			oldVal, newVal := castStockChange(change)
 			event := InventoryChange{
 				ID:         change.Id,
-- 
2.43.0


From 998d832c9fb1cf71e141dbbc85fabacbfc35c58a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:45 +0000
Subject: [PATCH 12/46] fix: reject update masks by path when checking for
 read-only fields

Comparing the sizes of the mask and its intersection with the writable
fields rejects masks that mention a writable field twice and accepts a
mix of read-only and partially writable ones.
---
 pkg/masks/update.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pkg/masks/update.go b/pkg/masks/update.go
index cdf66a0..3779574 100644
--- a/pkg/masks/update.go
+++ b/pkg/masks/update.go
@@ -38,9 +38,12 @@ func (f *FieldUpdater) Validate(m proto.Message) error {
 
 		// are fields mentioned in the update mask actually writable?
 		if f.writableFields != nil {
-			common := f.fullMask()
-			if len(common.Paths) != len(f.updateMask.Paths) {
-				return status.Errorf(codes.InvalidArgument, "%v mentions read-only fields", f.updateMaskFieldName)
+			// Each path is checked individually, the update mask may mention a field more than once.
+			for _, path := range f.updateMask.Paths {
+				common := fieldmaskpb.Intersect(f.writableFields, &fieldmaskpb.FieldMask{Paths: []string{path}})
+				if len(common.Paths) == 0 {
+					return status.Errorf(codes.InvalidArgument, "%v mentions read-only fields", f.updateMaskFieldName)
+				}
 			}
 		}
 	}
-- 
2.43.0


From 68a62e1b7581b4908a20cdc5116999d1e737435e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:23 +0000
Subject: [PATCH 13/46] fix: accept overlapping and mismatched paths in field
 masks

A mask of both a field and one of its children only selected the child,
and read masks with paths that continue through maps or repeated scalars
made reads panic.
---
 pkg/masks/get.go    | 28 ++++++++++++++++++++++++++--
 pkg/masks/update.go |  6 +++---
 pkg/masks/util.go   |  9 +++++++++
 3 files changed, 38 insertions(+), 5 deletions(-)

diff --git a/pkg/masks/get.go b/pkg/masks/get.go
index 1767b89..2425a6f 100644
--- a/pkg/masks/get.go
+++ b/pkg/masks/get.go
@@ -5,6 +5,7 @@ import (
 	"google.golang.org/grpc/codes"
 	"google.golang.org/grpc/status"
 	"google.golang.org/protobuf/proto"
+	"google.golang.org/protobuf/reflect/protoreflect"
 	"google.golang.org/protobuf/types/known/fieldmaskpb"
 )
 
@@ -45,7 +46,7 @@ func (r *ResponseFilter) Filter(msg proto.Message) {
 		proto.Reset(msg)
 		return
 	}
-	fmutils.Filter(msg, r.fields.GetPaths())
+	filterFields(msg.ProtoReflect(), nestedMaskFromPaths(r.fields.GetPaths()))
 }
 
 // FilterClone is like Filter but clones and returns a new msg instead of modifying the original.
@@ -62,10 +63,33 @@ func (r *ResponseFilter) FilterClone(msg proto.Message) proto.Message {
 		return clone
 	}
 	clone := proto.Clone(msg)
-	fmutils.Filter(clone, r.fields.GetPaths())
+	filterFields(clone.ProtoReflect(), nestedMaskFromPaths(r.fields.GetPaths()))
 	return clone
 }
 
+// filterFields clears all fields of msg that aren't selected by mask.
+// Unlike fmutils, paths that don't lead anywhere are tolerated: they simply don't select anything.
+func filterFields(msg protoreflect.Message, mask fmutils.NestedMask) {
+	msg.Range(func(fd protoreflect.FieldDescriptor, v protoreflect.Value) bool {
+		fieldMask, ok := mask[string(fd.Name())]
+		switch {
+		case !ok:
+			msg.Clear(fd)
+		case len(fieldMask) == 0:
+			// the entire field is selected
+		case fd.IsMap() || fd.Message() == nil:
+			msg.Clear(fd) // there are no fields to select in maps and scalars
+		case fd.IsList():
+			for i, list := 0, v.List(); i < list.Len(); i++ {
+				filterFields(list.Get(i).Message(), fieldMask)
+			}
+		default:
+			filterFields(v.Message(), fieldMask)
+		}
+		return true
+	})
+}
+
 type ResponseFilterOption func(*ResponseFilter)
 
 var emptyResponseFilterOption ResponseFilterOption = func(_ *ResponseFilter) {
diff --git a/pkg/masks/update.go b/pkg/masks/update.go
index 3779574..6713aac 100644
--- a/pkg/masks/update.go
+++ b/pkg/masks/update.go
@@ -64,7 +64,7 @@ func (f *FieldUpdater) Merge(dst, src proto.Message) {
 
 	var writableMask fmutils.NestedMask
 	if f.writableFields != nil {
-		writableMask = fmutils.NestedMaskFromPaths(f.writableFields.Paths)
+		writableMask = nestedMaskFromPaths(f.writableFields.Paths)
 	}
 
 	// only allow writing writable fields by resetting non-writable fields in src
@@ -85,7 +85,7 @@ func (f *FieldUpdater) Merge(dst, src proto.Message) {
 		return
 	}
 
-	nestedMask := fmutils.NestedMaskFromPaths(mask.GetPaths())
+	nestedMask := nestedMaskFromPaths(mask.GetPaths())
 	nestedMask.Filter(src)
 	proto.Merge(dst, src)
 
@@ -93,7 +93,7 @@ func (f *FieldUpdater) Merge(dst, src proto.Message) {
 	pruneEmpty(dst, src, nestedMask)
 
 	if f.resetMask != nil {
-		fmutils.Prune(dst, f.resetMask.Paths)
+		nestedMaskFromPaths(f.resetMask.Paths).Prune(dst)
 	}
 
 	return
diff --git a/pkg/masks/util.go b/pkg/masks/util.go
index 73b558d..b3c969e 100644
--- a/pkg/masks/util.go
+++ b/pkg/masks/util.go
@@ -3,6 +3,7 @@ package masks
 import (
 	"strings"
 
+	"github.com/mennanov/fmutils"
 	"google.golang.org/protobuf/types/known/fieldmaskpb"
 )
 
@@ -32,3 +33,11 @@ func RemovePrefix(prefix string, mask *fieldmaskpb.FieldMask) *fieldmaskpb.Field
 	}
 	return out
 }
+
+// nestedMaskFromPaths is like fmutils.NestedMaskFromPaths but accepts paths that overlap, like "a" and "a.b".
+// Without normalizing them first the longer path would hide the rest of what the shorter one selects.
+func nestedMaskFromPaths(paths []string) fmutils.NestedMask {
+	mask := &fieldmaskpb.FieldMask{Paths: append([]string(nil), paths...)}
+	mask.Normalize()
+	return fmutils.NestedMaskFromPaths(mask.Paths)
+}
-- 
2.43.0


From fc64f16296bfba578ab1f560bb111997daeb8f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:39 +0000
Subject: [PATCH 14/46] fix: only write fields that are both in the update mask
 and writable

Merge cleared whole messages, including fields that are read-only or not
mentioned by the mask, when the written message doesn't have them. It
also filtered the message owned by the caller, and skipped the reset
mask when nothing is writable.
---
 pkg/masks/update.go | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/pkg/masks/update.go b/pkg/masks/update.go
index 6713aac..874810b 100644
--- a/pkg/masks/update.go
+++ b/pkg/masks/update.go
@@ -58,10 +58,15 @@ func (f *FieldUpdater) Validate(m proto.Message) error {
 
 // Merge copies the values in src into dst based on the configured field masks.
 func (f *FieldUpdater) Merge(dst, src proto.Message) {
+	if f.resetMask != nil && (f.updateMask == nil || len(f.updateMask.Paths) > 0) {
+		defer nestedMaskFromPaths(f.resetMask.Paths).Prune(dst)
+	}
 	if f.writableFields != nil && len(f.writableFields.Paths) == 0 {
 		return // nothing is writable
 	}
 
+	src = proto.Clone(src) // it's not ours to modify
+
 	var writableMask fmutils.NestedMask
 	if f.writableFields != nil {
 		writableMask = nestedMaskFromPaths(f.writableFields.Paths)
@@ -85,18 +90,20 @@ func (f *FieldUpdater) Merge(dst, src proto.Message) {
 		return
 	}
 
+	if mask != nil && writableMask != nil {
+		// parts of a field mentioned by mask might not be writable
+		mask = f.fullMask()
+		if len(mask.GetPaths()) == 0 {
+			return
+		}
+	}
+
 	nestedMask := nestedMaskFromPaths(mask.GetPaths())
 	nestedMask.Filter(src)
 	proto.Merge(dst, src)
 
 	// if a field mentioned by the mask is nil, we should clear it
 	pruneEmpty(dst, src, nestedMask)
-
-	if f.resetMask != nil {
-		nestedMaskFromPaths(f.resetMask.Paths).Prune(dst)
-	}
-
-	return
 }
 
 func pruneEmpty(dst, src proto.Message, mask fmutils.NestedMask) {
@@ -107,11 +114,12 @@ func pruneEmpty(dst, src proto.Message, mask fmutils.NestedMask) {
 		if !ok {
 			return true
 		}
-		if !srcPr.Has(d) {
+		if !srcPr.Has(d) && (len(fieldMask) == 0 || d.Kind() != protoreflect.MessageKind) {
 			dstPr.Clear(d)
 			return true
 		}
 		if d.Kind() == protoreflect.MessageKind && d.Cardinality() != protoreflect.Repeated {
+			// if src doesn't have the field then Get returns an empty message, leaving it to the mask to say what to clear
 			pruneEmpty(dstPr.Get(d).Message().Interface(), srcPr.Get(d).Message().Interface(), fieldMask)
 		}
 		return true
-- 
2.43.0


From 665ffd0eb12eb5daeef17cf9fcbbe18de5cb4e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:50 +0000
Subject: [PATCH 15/46] fix: remove the given prefix from field masks

RemovePrefix assumed the prefix has 6 characters and returned the
original paths alongside the trimmed one.
---
 pkg/masks/util.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/masks/util.go b/pkg/masks/util.go
index b3c969e..d7883d7 100644
--- a/pkg/masks/util.go
+++ b/pkg/masks/util.go
@@ -17,18 +17,18 @@ func RemovePrefix(prefix string, mask *fieldmaskpb.FieldMask) *fieldmaskpb.Field
 		case path == prefix:
 			continue // skip this one
 		case strings.HasPrefix(path, prefix+"."):
-			path = path[7:]
+			path = path[len(prefix)+1:]
 			switch {
 			case path == "*":
 				continue
 			case strings.HasPrefix(path, "*."):
 				path = path[2:]
 			}
-			out.Paths = append(mask.Paths, path)
+			out.Paths = append(out.Paths, path)
 		}
 	}
 
-	if len(mask.Paths) == 0 {
+	if len(out.Paths) == 0 {
 		return nil
 	}
 	return out
-- 
2.43.0


From 8a9f210369b726ec00bf817884ac5040cc04c1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:38 +0000
Subject: [PATCH 16/46] fix: don't share initial values with the caller

---
 pkg/resource/collection.go | 2 +-
 pkg/resource/value.go      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/resource/collection.go b/pkg/resource/collection.go
index bd3d90c..63c6e1a 100644
--- a/pkg/resource/collection.go
+++ b/pkg/resource/collection.go
@@ -32,7 +32,7 @@ func NewCollection(options ...Option) *Collection {
 	conf := computeConfig(options...)
 	initialItems := make(map[string]*item)
 	for k, v := range conf.initialRecords {
-		initialItems[k] = &item{body: v, changeTime: conf.clock.Now()}
+		initialItems[k] = &item{body: proto.Clone(v), changeTime: conf.clock.Now()}
 	}
 	conf.initialRecords = nil // so the gc can collect them
 
diff --git a/pkg/resource/value.go b/pkg/resource/value.go
index 70b9c8f..d390dca 100644
--- a/pkg/resource/value.go
+++ b/pkg/resource/value.go
@@ -31,7 +31,7 @@ func NewValue(opts ...Option) *Value {
 	res := &Value{
 		config: c,
 	}
-	res.value = c.initialValue
+	res.value = proto.Clone(c.initialValue) // the caller is free to change theirs
 	res.changeTime = c.clock.Now()
 	c.initialValue = nil // clear so it can be GC'd when the value changes
 	return res
-- 
2.43.0


From ee33ffde0464caf73f73e5e654bad782cd014a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:53 +0000
Subject: [PATCH 17/46] fix: don't modify stored messages when merging traits

Also don't remove an unrelated trait when the one to remove isn't there.
---
 pkg/trait/metadatapb/model.go | 2 +-
 pkg/trait/parentpb/model.go   | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/pkg/trait/metadatapb/model.go b/pkg/trait/metadatapb/model.go
index 89d0dd4..beade8c 100644
--- a/pkg/trait/metadatapb/model.go
+++ b/pkg/trait/metadatapb/model.go
@@ -109,7 +109,7 @@ func metadataMergeInterceptor(old, new proto.Message) {
 	// The default proto.Merge logic is to append src slices to dst slices.
 	// Instead we want to treat the Traits slice as if it were a map keyed by TraitMetadata.Name,
 	// so we have to do it ourselves.
-	oldVal := old.(*traits.Metadata)
+	oldVal := proto.Clone(old).(*traits.Metadata) // we edit the traits, which we can't do to old
 	newVal := new.(*traits.Metadata)
 	newVal.Traits = oldVal.Traits
 	for _, trait := range cleanTraits {
diff --git a/pkg/trait/parentpb/model.go b/pkg/trait/parentpb/model.go
index 041a09f..b50b0ea 100644
--- a/pkg/trait/parentpb/model.go
+++ b/pkg/trait/parentpb/model.go
@@ -3,6 +3,7 @@ package parentpb
 import (
 	"context"
 	"fmt"
+	"slices"
 	"sort"
 
 	"google.golang.org/grpc/codes"
@@ -148,6 +149,7 @@ func childrenChangeToProto(change *resource.CollectionChange) *traits.PullChildr
 // The returned slice will be sorted in ascending order by Trait.Name.
 func traitUnion(has []*traits.Trait, more ...trait.Name) []*traits.Trait {
 	// has should be sorted by Trait.Name
+	has = slices.Clone(has) // we modify it in place, and it likely belongs to a stored message
 	for _, t := range more {
 		ts := string(t)
 		insertIndex := sort.Search(len(has), func(i int) bool {
@@ -170,12 +172,13 @@ func traitUnion(has []*traits.Trait, more ...trait.Name) []*traits.Trait {
 // The returned slice will be sorted in ascending order by Trait.Name.
 func traitRemove(has []*traits.Trait, remove ...trait.Name) []*traits.Trait {
 	// has should be sorted by Trait.Name
+	has = slices.Clone(has) // we modify it in place, and it likely belongs to a stored message
 	for _, t := range remove {
 		ts := string(t)
 		insertIndex := sort.Search(len(has), func(i int) bool {
 			return has[i].Name >= ts
 		})
-		if insertIndex == len(has) {
+		if insertIndex == len(has) || has[insertIndex].Name != ts {
 			continue // t isn't in has, nothing to do this iteration
 		}
 		copy(has[insertIndex:], has[insertIndex+1:])
-- 
2.43.0


From fffa6d2b862e2eb31fb30ec810217f5a4c260c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:53 +0000
Subject: [PATCH 18/46] fix: retry parent trait changes that race with each
 other instead of panicking

---
 pkg/trait/parentpb/model.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/trait/parentpb/model.go b/pkg/trait/parentpb/model.go
index b50b0ea..97c494b 100644
--- a/pkg/trait/parentpb/model.go
+++ b/pkg/trait/parentpb/model.go
@@ -76,6 +76,9 @@ func (m *Model) AddChildTrait(name string, traitName ...trait.Name) (child *trai
 			newChild := value.(*traits.Child)
 			newChild.Traits = traitUnion(oldChild.Traits, traitName...)
 		}))
+	if status.Code(err) == codes.Aborted {
+		return m.AddChildTrait(name, traitName...) // somebody else changed the child at the same time
+	}
 	if err != nil {
 		panic(err) // shouldn't happen
 	}
@@ -95,8 +98,10 @@ func (m *Model) RemoveChildTrait(name string, traitName ...trait.Name) *traits.C
 		switch status.Code(err) {
 		case codes.NotFound:
 			return nil
+		case codes.Aborted:
+			return m.RemoveChildTrait(name, traitName...) // somebody else changed the child at the same time
 		}
-		panic(err) // NotFound is the only error we expect
+		panic(err) // NotFound and Aborted are the only errors we expect
 	}
 	return msg.(*traits.Child)
 }
-- 
2.43.0


From 2e1ca248837bfd34f2d359e38ace47b1a063e372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:41 +0000
Subject: [PATCH 19/46] fix: don't modify the stored enter leave event when
 pulling it

---
 pkg/trait/enterleavesensorpb/model.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/trait/enterleavesensorpb/model.go b/pkg/trait/enterleavesensorpb/model.go
index a315b9e..7dbdce4 100644
--- a/pkg/trait/enterleavesensorpb/model.go
+++ b/pkg/trait/enterleavesensorpb/model.go
@@ -71,6 +71,7 @@ func (m *Model) PullEnterLeaveEvents(ctx context.Context, opts ...resource.ReadO
 			val := change.Value.(*traits.EnterLeaveEvent)
 			if change.LastSeedValue {
 				// when sending the initial data (not an update), the occupant and direction should be absent.
+				val = proto.Clone(val).(*traits.EnterLeaveEvent) // the seed is the stored message, we can't edit that
 				val.Occupant = nil
 				val.Direction = traits.EnterLeaveEvent_DIRECTION_UNSPECIFIED
 			}
-- 
2.43.0


From 43c52a5b893bd0c1379ad9bdaee56a503af035b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:42 +0000
Subject: [PATCH 20/46] fix: waste record listing and subscription edge cases

- reject bad page tokens and sizes instead of panicking
- apply the read mask to listed records and seed events
- report changes using the name from the request
- store the written record instead of the caller's message
- don't hold the model's lock while sending to a subscriber
---
 pkg/trait/wastepb/model.go        | 20 +++++++++++++++-----
 pkg/trait/wastepb/model_server.go | 21 ++++++++++++++++-----
 2 files changed, 31 insertions(+), 10 deletions(-)

diff --git a/pkg/trait/wastepb/model.go b/pkg/trait/wastepb/model.go
index 55eb980..795aa0c 100644
--- a/pkg/trait/wastepb/model.go
+++ b/pkg/trait/wastepb/model.go
@@ -11,6 +11,7 @@ import (
 
 	"github.com/smart-core-os/sc-api/go/traits"
 	"github.com/smart-core-os/sc-api/go/types"
+	"github.com/smart-core-os/sc-golang/pkg/masks"
 	"github.com/smart-core-os/sc-golang/pkg/resource"
 )
 
@@ -57,7 +58,7 @@ func (m *Model) AddWasteRecord(wr *traits.WasteRecord, opts ...resource.WriteOpt
 	}
 	m.mu.Lock()
 	defer m.mu.Unlock()
-	m.allWasteRecords = append(m.allWasteRecords, wr)
+	m.allWasteRecords = append(m.allWasteRecords, v.(*traits.WasteRecord)) // not wr, that belongs to the caller
 	return v.(*traits.WasteRecord), nil
 }
 
@@ -89,6 +90,9 @@ func (m *Model) ListWasteRecords(start, count int) []*traits.WasteRecord {
 	m.mu.Lock()
 	defer m.mu.Unlock()
 	var wasteRecords []*traits.WasteRecord
+	if start > len(m.allWasteRecords) {
+		start = len(m.allWasteRecords)
+	}
 	// reverse to retrieve the latest wasteRecords first
 	for i := start - 1; i >= 0; i-- {
 		wasteRecords = append(wasteRecords, m.allWasteRecords[i])
@@ -106,21 +110,27 @@ func (m *Model) pullWasteRecordsWrapper(request *traits.PullWasteRecordsRequest,
 		if i < 0 {
 			i = 0
 		}
+		var seeds []*traits.WasteRecord // don't hold the lock during Send, a slow reader would block writers
 		for ; i < len(m.allWasteRecords)-1; i++ {
+			seeds = append(seeds, m.allWasteRecords[i])
+		}
+		m.mu.Unlock()
+
+		filter := masks.NewResponseFilter(masks.WithFieldMask(request.ReadMask))
+		for _, seed := range seeds {
 			change := &traits.PullWasteRecordsResponse_Change{
 				Name:       request.Name,
-				NewValue:   m.allWasteRecords[i],
-				ChangeTime: m.allWasteRecords[i].WasteCreateTime,
+				NewValue:   filter.FilterClone(seed).(*traits.WasteRecord),
+				ChangeTime: seed.WasteCreateTime,
 				Type:       types.ChangeType_ADD,
 			}
 			if err := server.Send(&traits.PullWasteRecordsResponse{Changes: []*traits.PullWasteRecordsResponse_Change{change}}); err != nil {
-				m.mu.Unlock()
 				return err
 			}
 		}
-		m.mu.Unlock()
 	}
 	for change := range m.PullWasteRecords(server.Context(), resource.WithReadMask(request.ReadMask), resource.WithUpdatesOnly(request.UpdatesOnly)) {
+		change.Name = request.Name
 		msg := &traits.PullWasteRecordsResponse{}
 		msg.Changes = append(msg.Changes, change)
 		if err := server.Send(msg); err != nil {
diff --git a/pkg/trait/wastepb/model_server.go b/pkg/trait/wastepb/model_server.go
index d94fa22..014d486 100644
--- a/pkg/trait/wastepb/model_server.go
+++ b/pkg/trait/wastepb/model_server.go
@@ -5,8 +5,11 @@ import (
 	"strconv"
 
 	"google.golang.org/grpc"
+	"google.golang.org/grpc/codes"
+	"google.golang.org/grpc/status"
 
 	"github.com/smart-core-os/sc-api/go/traits"
+	"github.com/smart-core-os/sc-golang/pkg/masks"
 )
 
 type ModelServer struct {
@@ -33,14 +36,19 @@ func (m *ModelServer) ListWasteRecords(ctx context.Context, req *traits.ListWast
 	pageToken := req.GetPageToken()
 	startIndex := m.model.GetWasteRecordCount()
 	if pageToken != "" {
-		_, err := strconv.Atoi(req.GetPageToken())
-		if err != nil {
-			return nil, err
+		index, err := strconv.Atoi(pageToken)
+		if err != nil || index < 0 {
+			return nil, status.Errorf(codes.InvalidArgument, "bad page token: %v", pageToken)
+		}
+		if index < startIndex {
+			startIndex = index
 		}
-		startIndex, _ = strconv.Atoi(pageToken)
 	}
 
 	count := req.PageSize
+	if count < 0 {
+		return nil, status.Errorf(codes.InvalidArgument, "bad page size: %d", count)
+	}
 	if count == 0 {
 		count = 50
 	} else if count > 1000 {
@@ -48,7 +56,10 @@ func (m *ModelServer) ListWasteRecords(ctx context.Context, req *traits.ListWast
 	}
 
 	resp := &traits.ListWasteRecordsResponse{}
-	resp.WasteRecords = m.model.ListWasteRecords(startIndex, int(count))
+	filter := masks.NewResponseFilter(masks.WithFieldMask(req.GetReadMask()))
+	for _, wr := range m.model.ListWasteRecords(startIndex, int(count)) {
+		resp.WasteRecords = append(resp.WasteRecords, filter.FilterClone(wr).(*traits.WasteRecord))
+	}
 
 	if int(count) == len(resp.WasteRecords) {
 		npt := startIndex - int(count)
-- 
2.43.0


From 546c74b5befd1aee8e337f89fddf577c16bd1f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:36 +0000
Subject: [PATCH 21/46] fix: copy messages before they cross the wrapped stream

The receiver copied the message after the sender had been told it was
sent, racing with any changes the sender makes to it.
---
 pkg/wrap/stream.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pkg/wrap/stream.go b/pkg/wrap/stream.go
index 39d4121..9aed717 100644
--- a/pkg/wrap/stream.go
+++ b/pkg/wrap/stream.go
@@ -96,7 +96,7 @@ func (c *clientStream) SendMsg(m any) error {
 	select {
 	case <-c.ctx.Done():
 		return c.closeErrLocked()
-	case c.clientSend <- m:
+	case c.clientSend <- cloneMessage(m):
 		return nil
 	}
 }
@@ -159,7 +159,7 @@ func (s *serverStream) SendMsg(m any) error {
 	select {
 	case <-s.ctx.Done():
 		return s.closeErrLocked()
-	case s.serverSend <- m:
+	case s.serverSend <- cloneMessage(m):
 		return nil
 	}
 }
@@ -181,10 +181,17 @@ func (s *serverStream) sendHeaderIfNeeded() {
 	_ = s.SendHeader(nil)
 }
 
-// works like proto.Merge but allows messages with different descriptors by performing a marshal/unmarshal
+// cloneMessage copies a message before it is handed to the other side of the stream.
+// As soon as the other side has it the sender is free to modify their copy.
+func cloneMessage(m any) any {
+	return proto.Clone(m.(proto.Message))
+}
+
+// works like proto.Merge but replaces the contents of dst and allows messages with different descriptors by performing a marshal/unmarshal
 //
 // This is the recommended way to do it: https://github.com/golang/protobuf/issues/1163#issuecomment-654334690
 func permissiveProtoMerge(dst, src proto.Message) error {
+	proto.Reset(dst) // like unmarshalling does, the caller might be reusing messages
 	if dst.ProtoReflect().Descriptor() == src.ProtoReflect().Descriptor() {
 		// easy case, where proto.Merge can be used
 		proto.Merge(dst, src)
-- 
2.43.0


From f0800e39149980ad5f40013972fdd2119b661017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:57 +0000
Subject: [PATCH 22/46] fix: report the end of wrapped streams like gRPC does

- cancellation and deadline expiry are reported as such, to both sides
- sending on an ended stream is io.EOF, RecvMsg reports the reason
- CloseSend can be called more than once, sending after it doesn't panic
- headers that were set but not sent are sent with the status
- headers and trailers are guarded from concurrent access
---
 pkg/wrap/stream.go | 60 ++++++++++++++++++++++++++++++++++++----------
 1 file changed, 47 insertions(+), 13 deletions(-)

diff --git a/pkg/wrap/stream.go b/pkg/wrap/stream.go
index 9aed717..4cb225d 100644
--- a/pkg/wrap/stream.go
+++ b/pkg/wrap/stream.go
@@ -7,7 +7,9 @@ import (
 	"sync"
 
 	"google.golang.org/grpc"
+	"google.golang.org/grpc/codes"
 	"google.golang.org/grpc/metadata"
+	"google.golang.org/grpc/status"
 	"google.golang.org/protobuf/proto"
 )
 
@@ -16,11 +18,13 @@ type ClientServerStream struct {
 	ctx context.Context
 
 	header  metadata.MD
-	headerM sync.Mutex    // guards closing of headerC
+	headerM sync.Mutex    // guards header, trailer, and closing of headerC
 	headerC chan struct{} // closed once calls to clientStream.Header should return
 
 	serverSend chan any
 	clientSend chan any
+	clientDone chan struct{} // closed once the client won't send any more messages
+	clientOnce sync.Once     // guards closing of clientDone
 	trailer    metadata.MD
 	closed     context.CancelFunc
 	closeErr   error
@@ -34,10 +38,18 @@ func NewClientServerStream(ctx context.Context) *ClientServerStream {
 		headerC:    make(chan struct{}),
 		serverSend: make(chan any),
 		clientSend: make(chan any),
+		clientDone: make(chan struct{}),
 	}
 }
 
 func (s *ClientServerStream) Close(err error) {
+	s.headerM.Lock()
+	hasHeader := len(s.header) > 0
+	s.headerM.Unlock()
+	if hasHeader {
+		// headers that were set but not sent yet are sent along with the status
+		s.sendHeaderIfNeeded()
+	}
 	s.closeErr = err
 	close(s.serverSend)
 	s.closed()
@@ -80,11 +92,15 @@ func (c *clientStream) Header() (metadata.MD, error) {
 }
 
 func (c *clientStream) Trailer() metadata.MD {
+	c.headerM.Lock()
+	defer c.headerM.Unlock()
 	return c.trailer
 }
 
 func (c *clientStream) CloseSend() error {
-	close(c.clientSend)
+	c.clientOnce.Do(func() {
+		close(c.clientDone)
+	})
 	return nil
 }
 
@@ -93,9 +109,14 @@ func (c *clientStream) Context() context.Context {
 }
 
 func (c *clientStream) SendMsg(m any) error {
+	select {
+	case <-c.clientDone:
+		return status.Error(codes.Internal, "SendMsg called after CloseSend")
+	default:
+	}
 	select {
 	case <-c.ctx.Done():
-		return c.closeErrLocked()
+		return io.EOF // RecvMsg reports the reason
 	case c.clientSend <- cloneMessage(m):
 		return nil
 	}
@@ -114,7 +135,7 @@ func (c *clientStream) RecvMsg(m any) error {
 			}
 		default:
 		}
-		return c.Context().Err()
+		return status.FromContextError(c.Context().Err()).Err()
 	case val, ok := <-c.serverSend:
 		if !ok {
 			return c.closeErrLocked()
@@ -128,11 +149,23 @@ type serverStream struct {
 }
 
 func (s *serverStream) SetHeader(md metadata.MD) error {
+	s.headerM.Lock()
+	defer s.headerM.Unlock()
+
+	select {
+	case <-s.headerC:
+		return errors.New("headers already sent")
+	default:
+	}
 	s.header = metadata.Join(s.header, md)
 	return nil
 }
 
 func (s *serverStream) SendHeader(md metadata.MD) error {
+	return s.sendHeader(md)
+}
+
+func (s *ClientServerStream) sendHeader(md metadata.MD) error {
 	s.headerM.Lock()
 	defer s.headerM.Unlock()
 
@@ -147,6 +180,8 @@ func (s *serverStream) SendHeader(md metadata.MD) error {
 }
 
 func (s *serverStream) SetTrailer(md metadata.MD) {
+	s.headerM.Lock()
+	defer s.headerM.Unlock()
 	s.trailer = metadata.Join(s.trailer, md)
 }
 
@@ -158,7 +193,7 @@ func (s *serverStream) SendMsg(m any) error {
 	s.sendHeaderIfNeeded()
 	select {
 	case <-s.ctx.Done():
-		return s.closeErrLocked()
+		return status.FromContextError(s.ctx.Err()).Err()
 	case s.serverSend <- cloneMessage(m):
 		return nil
 	}
@@ -167,18 +202,17 @@ func (s *serverStream) SendMsg(m any) error {
 func (s *serverStream) RecvMsg(m any) error {
 	select {
 	case <-s.Context().Done():
-		return s.closeErrLocked()
-	case val, ok := <-s.clientSend:
-		if !ok {
-			return io.EOF
-		}
+		return status.FromContextError(s.Context().Err()).Err()
+	case <-s.clientDone:
+		return io.EOF
+	case val := <-s.clientSend:
 		return permissiveProtoMerge(m.(proto.Message), val.(proto.Message))
 	}
 }
 
-func (s *serverStream) sendHeaderIfNeeded() {
-	// ignore error, SendHeader has no side effects if the headers have already been sent
-	_ = s.SendHeader(nil)
+func (s *ClientServerStream) sendHeaderIfNeeded() {
+	// ignore error, sendHeader has no side effects if the headers have already been sent
+	_ = s.sendHeader(nil)
 }
 
 // cloneMessage copies a message before it is handed to the other side of the stream.
-- 
2.43.0


From 22407b32329cf9fd42e6c718a173d00435715bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:25 +0000
Subject: [PATCH 23/46] fix: end wrapped calls with the same status as gRPC

- the handler's error is converted to a status
- header and trailer options are collected when the call ends early
- the handler's context is cancelled when the call ends
- calling a streaming method as unary is a shape mismatch
---
 pkg/wrap/wrap.go | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/pkg/wrap/wrap.go b/pkg/wrap/wrap.go
index c4cd005..cef77f8 100644
--- a/pkg/wrap/wrap.go
+++ b/pkg/wrap/wrap.go
@@ -3,6 +3,7 @@ package wrap
 import (
 	"context"
 	"fmt"
+	"io"
 	"reflect"
 
 	"google.golang.org/grpc"
@@ -54,6 +55,9 @@ type wrapper struct {
 func (w *wrapper) Invoke(ctx context.Context, method string, args any, reply any, opts ...grpc.CallOption) error {
 	matched, ok := w.methods[method]
 	if !ok {
+		if _, ok := w.streams[method]; ok {
+			return ErrMethodShape
+		}
 		return ErrMethodNotFound
 	}
 
@@ -63,14 +67,15 @@ func (w *wrapper) Invoke(ctx context.Context, method string, args any, reply any
 			return ss.RecvMsg(dst)
 		}, nil)
 		if err != nil {
-			clientServerStream.Close(err)
+			clientServerStream.Close(statusError(err))
 			return
 		}
 		err = ss.SendMsg(res)
 		clientServerStream.Close(err)
 	}()
 
-	if err := cs.SendMsg(args); err != nil {
+	// io.EOF means the call has already ended, RecvMsg will tell us why
+	if err := cs.SendMsg(args); err != nil && err != io.EOF {
 		return err
 	}
 	if err := cs.CloseSend(); err != nil {
@@ -104,7 +109,7 @@ func (w *wrapper) NewStream(ctx context.Context, desc *grpc.StreamDesc, method s
 	ctx, clientServerStream, ss, cs := w.startStream(ctx, method)
 	go func() {
 		err := matched.Handler(w.srv, ss)
-		clientServerStream.Close(err)
+		clientServerStream.Close(statusError(err))
 	}()
 
 	return cs, nil
@@ -125,7 +130,8 @@ func (w *wrapper) startStream(ctx context.Context, method string) (context.Conte
 	sts.ss = ss
 	cs := clientServerStream.Client()
 
-	return ctx, clientServerStream, ss, cs
+	// the server uses the context of the stream, so it is cancelled when the call ends
+	return ss.Context(), clientServerStream, ss, cs
 }
 
 // thin implementation of grpc.ServerTransportStream, only to allow grpc.SetHeader to work,
@@ -152,6 +158,18 @@ func (ts *serverTransportStream) Method() string {
 	return ts.method
 }
 
+// statusError converts an error returned by a server handler into the error the client sees.
+func statusError(err error) error {
+	if err == nil {
+		return nil
+	}
+	st, ok := status.FromError(err)
+	if !ok {
+		st = status.FromContextError(err)
+	}
+	return st.Err()
+}
+
 func cloneMD(md metadata.MD) metadata.MD {
 	if md == nil {
 		return nil
-- 
2.43.0


From 7937c877eeead1fff2505adf89d9da20b1d7740f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:00 +0000
Subject: [PATCH 24/46] fix: wait for the status of wrapped calls with a single
 response

A server that responds and then fails looked like a success.
---
 pkg/wrap/stream.go | 33 +++++++++++++++++++++++++++++----
 pkg/wrap/wrap.go   |  4 +++-
 2 files changed, 32 insertions(+), 5 deletions(-)

diff --git a/pkg/wrap/stream.go b/pkg/wrap/stream.go
index 4cb225d..5dc7165 100644
--- a/pkg/wrap/stream.go
+++ b/pkg/wrap/stream.go
@@ -28,6 +28,8 @@ type ClientServerStream struct {
 	trailer    metadata.MD
 	closed     context.CancelFunc
 	closeErr   error
+
+	singleResponse bool // true if the server sends one message at most
 }
 
 func NewClientServerStream(ctx context.Context) *ClientServerStream {
@@ -123,6 +125,29 @@ func (c *clientStream) SendMsg(m any) error {
 }
 
 func (c *clientStream) RecvMsg(m any) error {
+	val, err := c.recv()
+	if err != nil {
+		return err
+	}
+	if err := permissiveProtoMerge(m.(proto.Message), val.(proto.Message)); err != nil {
+		return err
+	}
+	if c.singleResponse {
+		// the call isn't a success until the server says so
+		switch _, err := c.recv(); err {
+		case io.EOF:
+			return nil
+		case nil:
+			return status.Error(codes.Internal, "more than one response for a call without server streaming")
+		default:
+			return err
+		}
+	}
+	return nil
+}
+
+// recv returns the next message sent by the server, or how the stream ended if there are no more messages.
+func (c *clientStream) recv() (any, error) {
 	select {
 	case <-c.Context().Done():
 		// closeErr may or may not be available depending on why the context has ended
@@ -131,16 +156,16 @@ func (c *clientStream) RecvMsg(m any) error {
 		select {
 		case _, ok := <-c.serverSend:
 			if !ok {
-				return c.closeErrLocked()
+				return nil, c.closeErrLocked()
 			}
 		default:
 		}
-		return status.FromContextError(c.Context().Err()).Err()
+		return nil, status.FromContextError(c.Context().Err()).Err()
 	case val, ok := <-c.serverSend:
 		if !ok {
-			return c.closeErrLocked()
+			return nil, c.closeErrLocked()
 		}
-		return permissiveProtoMerge(m.(proto.Message), val.(proto.Message))
+		return val, nil
 	}
 }
 
diff --git a/pkg/wrap/wrap.go b/pkg/wrap/wrap.go
index cef77f8..d63e350 100644
--- a/pkg/wrap/wrap.go
+++ b/pkg/wrap/wrap.go
@@ -62,6 +62,7 @@ func (w *wrapper) Invoke(ctx context.Context, method string, args any, reply any
 	}
 
 	ctx, clientServerStream, ss, cs := w.startStream(ctx, method)
+	clientServerStream.singleResponse = true
 	go func() {
 		res, err := matched.Handler(w.srv, ctx, func(dst any) error {
 			return ss.RecvMsg(dst)
@@ -106,7 +107,8 @@ func (w *wrapper) NewStream(ctx context.Context, desc *grpc.StreamDesc, method s
 		return nil, ErrMethodShape
 	}
 
-	ctx, clientServerStream, ss, cs := w.startStream(ctx, method)
+	_, clientServerStream, ss, cs := w.startStream(ctx, method)
+	clientServerStream.singleResponse = !matched.ServerStreams
 	go func() {
 		err := matched.Handler(w.srv, ss)
 		clientServerStream.Close(statusError(err))
-- 
2.43.0


From dfbf31d72be6c4966d39c391d9f129099c105e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:34 +0000
Subject: [PATCH 25/46] fix: return errors from memory device updates

A failed update of the air temperature, emergency, count, and light memory
devices panicked, the light device ignored the update mask, and count
changes didn't have a change time.
---
 pkg/trait/airtemperaturepb/memory.go |  5 ++++-
 pkg/trait/countpb/memory.go          | 15 +++++++++++----
 pkg/trait/emergencypb/memory.go      |  5 ++++-
 pkg/trait/lightpb/memory.go          |  8 ++++++--
 4 files changed, 25 insertions(+), 8 deletions(-)

diff --git a/pkg/trait/airtemperaturepb/memory.go b/pkg/trait/airtemperaturepb/memory.go
index 86a79ca..164f19c 100644
--- a/pkg/trait/airtemperaturepb/memory.go
+++ b/pkg/trait/airtemperaturepb/memory.go
@@ -50,7 +50,10 @@ func (t *MemoryDevice) GetAirTemperature(_ context.Context, req *traits.GetAirTe
 
 func (t *MemoryDevice) UpdateAirTemperature(_ context.Context, request *traits.UpdateAirTemperatureRequest) (*traits.AirTemperature, error) {
 	update, err := t.airTemperature.Set(request.State, resource.WithUpdateMask(request.UpdateMask))
-	return update.(*traits.AirTemperature), err
+	if err != nil {
+		return nil, err
+	}
+	return update.(*traits.AirTemperature), nil
 }
 
 func (t *MemoryDevice) PullAirTemperature(request *traits.PullAirTemperatureRequest, server traits.AirTemperatureApi_PullAirTemperatureServer) error {
diff --git a/pkg/trait/countpb/memory.go b/pkg/trait/countpb/memory.go
index d5eba4d..25b1678 100644
--- a/pkg/trait/countpb/memory.go
+++ b/pkg/trait/countpb/memory.go
@@ -44,7 +44,10 @@ func (t *MemoryDevice) ResetCount(_ context.Context, request *traits.ResetCountR
 		rt = timestamppb.Now()
 	}
 	res, err := t.count.Set(&traits.Count{Added: 0, Removed: 0, ResetTime: rt}, resource.WithAllFieldsWritable())
-	return res.(*traits.Count), err
+	if err != nil {
+		return nil, err
+	}
+	return res.(*traits.Count), nil
 }
 
 func (t *MemoryDevice) UpdateCount(_ context.Context, request *traits.UpdateCountRequest) (*traits.Count, error) {
@@ -56,14 +59,18 @@ func (t *MemoryDevice) UpdateCount(_ context.Context, request *traits.UpdateCoun
 			tValue.Removed += tOld.Removed
 		}
 	}))
-	return res.(*traits.Count), err
+	if err != nil {
+		return nil, err
+	}
+	return res.(*traits.Count), nil
 }
 
 func (t *MemoryDevice) PullCounts(request *traits.PullCountsRequest, server traits.CountApi_PullCountsServer) error {
 	for event := range t.count.Pull(server.Context(), resource.WithReadMask(request.ReadMask), resource.WithUpdatesOnly(request.UpdatesOnly)) {
 		change := &traits.PullCountsResponse_Change{
-			Name:  request.Name,
-			Count: event.Value.(*traits.Count),
+			Name:       request.Name,
+			Count:      event.Value.(*traits.Count),
+			ChangeTime: timestamppb.New(event.ChangeTime),
 		}
 		err := server.Send(&traits.PullCountsResponse{
 			Changes: []*traits.PullCountsResponse_Change{change},
diff --git a/pkg/trait/emergencypb/memory.go b/pkg/trait/emergencypb/memory.go
index 44371df..b35242e 100644
--- a/pkg/trait/emergencypb/memory.go
+++ b/pkg/trait/emergencypb/memory.go
@@ -47,7 +47,10 @@ func (t *MemoryDevice) UpdateEmergency(_ context.Context, request *traits.Update
 			newt.LevelChangeTime = serverTimestamp()
 		}
 	}))
-	return update.(*traits.Emergency), err
+	if err != nil {
+		return nil, err
+	}
+	return update.(*traits.Emergency), nil
 }
 
 func (t *MemoryDevice) PullEmergency(request *traits.PullEmergencyRequest, server traits.EmergencyApi_PullEmergencyServer) error {
diff --git a/pkg/trait/lightpb/memory.go b/pkg/trait/lightpb/memory.go
index 6a9f89e..bad7169 100644
--- a/pkg/trait/lightpb/memory.go
+++ b/pkg/trait/lightpb/memory.go
@@ -47,8 +47,11 @@ func (s *MemoryDevice) GetBrightness(_ context.Context, req *traits.GetBrightnes
 
 func (s *MemoryDevice) UpdateBrightness(ctx context.Context, request *traits.UpdateBrightnessRequest) (*traits.Brightness, error) {
 	if request.GetBrightness().GetPreset() != nil {
-		res, err := s.brightness.Set(request.GetBrightness())
-		return res.(*traits.Brightness), err
+		res, err := s.brightness.Set(request.GetBrightness(), resource.WithUpdateMask(request.GetUpdateMask()))
+		if err != nil {
+			return nil, err
+		}
+		return res.(*traits.Brightness), nil
 	}
 
 	if err := resource.ValidateTweenOnUpdate("brightness", request.GetBrightness().GetBrightnessTween()); err != nil {
@@ -123,6 +126,7 @@ func (s *MemoryDevice) UpdateBrightness(ctx context.Context, request *traits.Upd
 
 	res, err := s.brightness.Set(
 		request.Brightness,
+		resource.WithUpdateMask(request.GetUpdateMask()),
 		// if there's a tween in progress, clear the tween props
 		resource.WithResetPaths("target_level_percent", "brightness_tween"),
 		resource.InterceptBefore(func(old, change proto.Message) {
-- 
2.43.0


From dacf78eec52c6b6945534d1a774b6d9e1b32bdbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:35 +0000
Subject: [PATCH 26/46] fix: don't panic when something else changes the
 brightness during a tween

---
 pkg/trait/lightpb/memory.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/pkg/trait/lightpb/memory.go b/pkg/trait/lightpb/memory.go
index bad7169..6dbdff5 100644
--- a/pkg/trait/lightpb/memory.go
+++ b/pkg/trait/lightpb/memory.go
@@ -2,10 +2,13 @@ package lightpb
 
 import (
 	"context"
+	"log"
 	"time"
 
 	"github.com/tanema/gween"
 	"github.com/tanema/gween/ease"
+	"google.golang.org/grpc/codes"
+	"google.golang.org/grpc/status"
 	"google.golang.org/protobuf/proto"
 	"google.golang.org/protobuf/types/known/timestamppb"
 
@@ -98,8 +101,8 @@ func (s *MemoryDevice) UpdateBrightness(ctx context.Context, request *traits.Upd
 						resource.WithResetPaths("target_level_percent", "brightness_tween"),
 						resource.WithExpectedValue(lastObj),
 					)
-					if err != nil && err != resource.ExpectedValuePreconditionFailed {
-						panic(err) // programmer error
+					if err != nil && !changedBySomebodyElse(err) {
+						log.Printf("failed to complete brightness tween: %v", err)
 					}
 					return
 				}
@@ -112,11 +115,12 @@ func (s *MemoryDevice) UpdateBrightness(ctx context.Context, request *traits.Upd
 					resource.WithExpectedValue(lastObj),
 				)
 				switch {
-				case err == resource.ExpectedValuePreconditionFailed:
+				case changedBySomebodyElse(err):
 					// somebody else changed the value, tweening is done
 					return
 				case err != nil:
-					panic(err) // programmer error
+					log.Printf("brightness tween stopped early: %v", err)
+					return
 				}
 			}
 		}()
@@ -170,6 +174,11 @@ func (s *MemoryDevice) PullBrightness(request *traits.PullBrightnessRequest, ser
 	return server.Context().Err()
 }
 
+// changedBySomebodyElse returns whether a tween update failed because of another update, either before or during it.
+func changedBySomebodyElse(err error) bool {
+	return err == resource.ExpectedValuePreconditionFailed || status.Code(err) == codes.Aborted
+}
+
 func capLevelPercent(next *traits.Brightness) {
 	if next.LevelPercent < 0 {
 		next.LevelPercent = 0
-- 
2.43.0


From b319e956b560075dbe6717ac7a1548c3da0e990c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:55 +0000
Subject: [PATCH 27/46] fix: don't share messages between callers and the light
 and open close models

The open close model also applied read masks for all positions to
individual ones, and didn't report changes if there were no positions to
start with.
---
 pkg/trait/lightpb/model.go     |  3 +++
 pkg/trait/openclosepb/model.go | 18 +++++++++++++-----
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/pkg/trait/lightpb/model.go b/pkg/trait/lightpb/model.go
index ff0b583..22cb188 100644
--- a/pkg/trait/lightpb/model.go
+++ b/pkg/trait/lightpb/model.go
@@ -4,6 +4,8 @@ import (
 	"context"
 	"time"
 
+	"google.golang.org/protobuf/proto"
+
 	"github.com/smart-core-os/sc-api/go/traits"
 	"github.com/smart-core-os/sc-golang/pkg/resource"
 )
@@ -26,6 +28,7 @@ func (m *Model) GetBrightness(opts ...resource.ReadOption) (*traits.Brightness,
 }
 
 func (m *Model) UpdateBrightness(light *traits.Brightness, opts ...resource.WriteOption) (*traits.Brightness, error) {
+	light = proto.Clone(light).(*traits.Brightness) // we might change it, and it belongs to the caller
 	if m.setLevelFromPreset(light) {
 		opts = append(opts, resource.WithMoreUpdatePaths("level_percent"))
 	}
diff --git a/pkg/trait/openclosepb/model.go b/pkg/trait/openclosepb/model.go
index a32bc5a..7b2e8f5 100644
--- a/pkg/trait/openclosepb/model.go
+++ b/pkg/trait/openclosepb/model.go
@@ -39,7 +39,10 @@ type preset struct {
 }
 
 func (m *Model) GetPositions(opts ...resource.ReadOption) (*traits.OpenClosePositions, error) {
-	allPositions := m.positions.List(opts...) // already sorted by ID aka Direction ordinal
+	readRequest := resource.ComputeReadConfig(opts...)
+	// the read mask is for OpenClosePositions, it's applied below
+	listOpts := append(slices.Clone(opts), resource.WithReadMask(nil))
+	allPositions := m.positions.List(listOpts...) // already sorted by ID aka Direction ordinal
 	dst := &traits.OpenClosePositions{
 		States: make([]*traits.OpenClosePosition, len(allPositions)),
 	}
@@ -52,7 +55,7 @@ func (m *Model) GetPositions(opts ...resource.ReadOption) (*traits.OpenClosePosi
 		dst.Preset = preset
 	}
 
-	return dst, nil
+	return readRequest.FilterClone(dst).(*traits.OpenClosePositions), nil
 }
 
 func (m *Model) GetPosition(dir traits.OpenClosePosition_Direction, opts ...resource.ReadOption) (*traits.OpenClosePosition, error) {
@@ -64,13 +67,14 @@ func (m *Model) GetPosition(dir traits.OpenClosePosition_Direction, opts ...reso
 }
 
 func (m *Model) UpdatePositions(positions *traits.OpenClosePositions, opts ...resource.WriteOption) (*traits.OpenClosePositions, error) {
+	states := positions.States
 	// preset handling
 	if positions.Preset != nil {
 		preset, presetPositions := m.presetForName(positions.Preset.Name)
 		if preset == nil {
 			return nil, status.Errorf(codes.InvalidArgument, "preset %q not found", positions.Preset.Name)
 		}
-		positions.States = presetPositions
+		states = presetPositions
 	}
 
 	writeRequest := resource.ComputeWriteConfig(opts...)
@@ -80,7 +84,7 @@ func (m *Model) UpdatePositions(positions *traits.OpenClosePositions, opts ...re
 	}
 	opts = append(opts, resource.WithCreateIfAbsent())
 
-	for _, state := range positions.States {
+	for _, state := range states {
 		_, err := m.positions.Update(directionToID(state.Direction), state, opts...)
 		if err != nil {
 			return nil, err
@@ -122,6 +126,9 @@ func (m *Model) PullPositions(ctx context.Context, ops ...resource.ReadOption) <
 				all[change.Id] = change.NewValue.(*traits.OpenClosePosition)
 			}
 
+			if !change.SeedValue {
+				seenAll = true // there might not be any seed values
+			}
 			shouldSend := seenAll || (change.LastSeedValue && !readRequest.UpdatesOnly)
 			if change.LastSeedValue {
 				seenAll = true
@@ -139,7 +146,8 @@ func (m *Model) PullPositions(ctx context.Context, ops ...resource.ReadOption) <
 			positions.Preset, _ = m.presetForValue(positions.States)
 
 			// projection and filtering
-			responseFilter.Filter(positions)
+			// don't use Filter, positions shares its states and preset with us
+			positions = responseFilter.FilterClone(positions).(*traits.OpenClosePositions)
 			if eq(last, positions) {
 				continue
 			}
-- 
2.43.0


From 3f172fa781ee4fe353c17ebde52c9ceaf48a4efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:55 +0000
Subject: [PATCH 28/46] fix: keep all fan speed properties consistent

Changing the percentage or index without setting the preset, as relative
updates do, didn't update the other properties. Also respect the update
mask, and don't panic when there are no presets or the direction is
reversed.
---
 pkg/trait/fanspeedpb/model.go        | 10 +++++++---
 pkg/trait/fanspeedpb/model_server.go |  6 ++++--
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/pkg/trait/fanspeedpb/model.go b/pkg/trait/fanspeedpb/model.go
index 56b76ce..6de8a4c 100644
--- a/pkg/trait/fanspeedpb/model.go
+++ b/pkg/trait/fanspeedpb/model.go
@@ -88,7 +88,8 @@ func (m *Model) validateUpdate(fanSpeed *traits.FanSpeed) error {
 func (m *Model) DeriveValues(old, new proto.Message) {
 	oldVal := old.(*traits.FanSpeed)
 	newVal := new.(*traits.FanSpeed)
-	if oldVal.Preset != newVal.Preset {
+	percentageChanged := oldVal.Percentage != newVal.Percentage
+	if oldVal.Preset != newVal.Preset && newVal.Preset != "" {
 		// preset updated, keep the index and percentage in sync
 		for i, preset := range m.presets {
 			if preset.Name == newVal.Preset {
@@ -100,7 +101,10 @@ func (m *Model) DeriveValues(old, new proto.Message) {
 		return
 	}
 
-	if oldVal.PresetIndex != newVal.PresetIndex {
+	// an index of zero along with a new percentage is an index that wasn't set
+	indexChanged := oldVal.PresetIndex != newVal.PresetIndex &&
+		(newVal.PresetIndex != 0 || !percentageChanged || newVal.Percentage == 0)
+	if indexChanged && len(m.presets) > 0 {
 		// cap the index if needed, and update the preset and percentage
 		if newVal.PresetIndex >= int32(len(m.presets)) {
 			newVal.PresetIndex = int32(len(m.presets) - 1)
@@ -114,7 +118,7 @@ func (m *Model) DeriveValues(old, new proto.Message) {
 		return
 	}
 
-	if oldVal.Percentage != newVal.Percentage {
+	if percentageChanged || oldVal.PresetIndex != newVal.PresetIndex || oldVal.Preset != newVal.Preset {
 		// try to find a preset that matches, and update the index and preset
 		newVal.PresetIndex = -1
 		newVal.Preset = ""
diff --git a/pkg/trait/fanspeedpb/model_server.go b/pkg/trait/fanspeedpb/model_server.go
index cf213ce..acfa118 100644
--- a/pkg/trait/fanspeedpb/model_server.go
+++ b/pkg/trait/fanspeedpb/model_server.go
@@ -4,6 +4,8 @@ import (
 	"context"
 
 	"google.golang.org/grpc"
+	"google.golang.org/grpc/codes"
+	"google.golang.org/grpc/status"
 	"google.golang.org/protobuf/proto"
 	"google.golang.org/protobuf/types/known/timestamppb"
 
@@ -34,7 +36,7 @@ func (s *ModelServer) GetFanSpeed(_ context.Context, request *traits.GetFanSpeed
 }
 
 func (s *ModelServer) UpdateFanSpeed(_ context.Context, request *traits.UpdateFanSpeedRequest) (*traits.FanSpeed, error) {
-	return s.model.UpdateFanSpeed(request.FanSpeed, resource.InterceptBefore(func(old, new proto.Message) {
+	return s.model.UpdateFanSpeed(request.FanSpeed, resource.WithUpdateMask(request.UpdateMask), resource.InterceptBefore(func(old, new proto.Message) {
 		if request.Relative {
 			oldVal := old.(*traits.FanSpeed)
 			newVal := new.(*traits.FanSpeed)
@@ -59,5 +61,5 @@ func (s *ModelServer) PullFanSpeed(request *traits.PullFanSpeedRequest, server t
 
 func (s *ModelServer) ReverseFanSpeedDirection(ctx context.Context, request *traits.ReverseFanSpeedDirectionRequest) (*traits.FanSpeed, error) {
 	// TODO implement me
-	panic("implement me")
+	return nil, status.Error(codes.Unimplemented, "method ReverseFanSpeedDirection not implemented")
 }
-- 
2.43.0


From 5f920626502ec95c7184766cf25498ddd7f6fbcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:46 +0000
Subject: [PATCH 29/46] fix: trait servers use all of the request

- enter leave sensor pulls respect updates_only
- the metadata collection's Get respects the read mask
- the press model server implements the PressApi
- child changes are reported under the requested name
- hail creation doesn't modify the request
---
 pkg/trait/enterleavesensorpb/model_server.go | 2 +-
 pkg/trait/hailpb/model_server.go             | 4 +++-
 pkg/trait/metadatapb/collection_server.go    | 2 +-
 pkg/trait/parentpb/model_server.go           | 1 +
 pkg/trait/presspb/model_server.go            | 6 +++---
 5 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/pkg/trait/enterleavesensorpb/model_server.go b/pkg/trait/enterleavesensorpb/model_server.go
index 65efbdd..a85b7fe 100644
--- a/pkg/trait/enterleavesensorpb/model_server.go
+++ b/pkg/trait/enterleavesensorpb/model_server.go
@@ -37,7 +37,7 @@ func (m *ModelServer) ResetEnterLeaveTotals(ctx context.Context, request *traits
 }
 
 func (m *ModelServer) PullEnterLeaveEvents(request *traits.PullEnterLeaveEventsRequest, server traits.EnterLeaveSensorApi_PullEnterLeaveEventsServer) error {
-	for change := range m.model.PullEnterLeaveEvents(server.Context(), resource.WithReadMask(request.ReadMask)) {
+	for change := range m.model.PullEnterLeaveEvents(server.Context(), resource.WithReadMask(request.ReadMask), resource.WithUpdatesOnly(request.UpdatesOnly)) {
 		err := server.Send(&traits.PullEnterLeaveEventsResponse{Changes: []*traits.PullEnterLeaveEventsResponse_Change{
 			{Name: request.Name, ChangeTime: timestamppb.New(change.ChangeTime), EnterLeaveEvent: change.Value},
 		}})
diff --git a/pkg/trait/hailpb/model_server.go b/pkg/trait/hailpb/model_server.go
index 663e16f..fc074d3 100644
--- a/pkg/trait/hailpb/model_server.go
+++ b/pkg/trait/hailpb/model_server.go
@@ -7,6 +7,7 @@ import (
 	"google.golang.org/grpc"
 	"google.golang.org/grpc/codes"
 	"google.golang.org/grpc/status"
+	"google.golang.org/protobuf/proto"
 	"google.golang.org/protobuf/types/known/timestamppb"
 
 	"github.com/smart-core-os/sc-api/go/traits"
@@ -33,7 +34,8 @@ func (m *ModelServer) Register(server grpc.ServiceRegistrar) {
 }
 
 func (m *ModelServer) CreateHail(_ context.Context, request *traits.CreateHailRequest) (*traits.Hail, error) {
-	hail := request.Hail
+	hail := &traits.Hail{}
+	proto.Merge(hail, request.GetHail()) // the request belongs to the caller
 	if hail.State == traits.Hail_STATE_UNSPECIFIED {
 		hail.State = traits.Hail_CALLED
 	}
diff --git a/pkg/trait/metadatapb/collection_server.go b/pkg/trait/metadatapb/collection_server.go
index 2de90da..631f331 100644
--- a/pkg/trait/metadatapb/collection_server.go
+++ b/pkg/trait/metadatapb/collection_server.go
@@ -22,7 +22,7 @@ func (s *CollectionServer) Unwrap() any {
 }
 
 func (s *CollectionServer) GetMetadata(_ context.Context, request *traits.GetMetadataRequest) (*traits.Metadata, error) {
-	return s.model.GetMetadata(request.Name)
+	return s.model.GetMetadata(request.Name, resource.WithReadMask(request.ReadMask))
 }
 
 func (s *CollectionServer) PullMetadata(request *traits.PullMetadataRequest, server traits.MetadataApi_PullMetadataServer) error {
diff --git a/pkg/trait/parentpb/model_server.go b/pkg/trait/parentpb/model_server.go
index f03d886..c141888 100644
--- a/pkg/trait/parentpb/model_server.go
+++ b/pkg/trait/parentpb/model_server.go
@@ -79,6 +79,7 @@ func (s *ModelServer) ListChildren(_ context.Context, request *traits.ListChildr
 
 func (s *ModelServer) PullChildren(request *traits.PullChildrenRequest, server traits.ParentApi_PullChildrenServer) error {
 	for change := range s.model.PullChildren(server.Context(), resource.WithReadMask(request.ReadMask), resource.WithUpdatesOnly(request.UpdatesOnly)) {
+		change.Name = request.Name
 		err := server.Send(&traits.PullChildrenResponse{Changes: []*traits.PullChildrenResponse_Change{change}})
 		if err != nil {
 			return err
diff --git a/pkg/trait/presspb/model_server.go b/pkg/trait/presspb/model_server.go
index 3f8a104..fde8762 100644
--- a/pkg/trait/presspb/model_server.go
+++ b/pkg/trait/presspb/model_server.go
@@ -18,15 +18,15 @@ func NewModelServer(model *Model) *ModelServer {
 	return &ModelServer{model: model}
 }
 
-func (s *ModelServer) GetButtonState(ctx context.Context, request *traits.GetPressedStateRequest) (*traits.PressedState, error) {
+func (s *ModelServer) GetPressedState(ctx context.Context, request *traits.GetPressedStateRequest) (*traits.PressedState, error) {
 	return s.model.GetPressedState(resource.WithReadMask(request.ReadMask)), nil
 }
 
-func (s *ModelServer) UpdateButtonState(ctx context.Context, request *traits.UpdatePressedStateRequest) (*traits.PressedState, error) {
+func (s *ModelServer) UpdatePressedState(ctx context.Context, request *traits.UpdatePressedStateRequest) (*traits.PressedState, error) {
 	return s.model.UpdatePressedState(request.PressedState, resource.WithUpdateMask(request.UpdateMask))
 }
 
-func (s *ModelServer) PullButtonState(request *traits.PullPressedStateRequest, server traits.PressApi_PullPressedStateServer) error {
+func (s *ModelServer) PullPressedState(request *traits.PullPressedStateRequest, server traits.PressApi_PullPressedStateServer) error {
 	changes := s.model.PullPressedState(server.Context(),
 		resource.WithReadMask(request.ReadMask),
 		resource.WithUpdatesOnly(request.UpdatesOnly),
-- 
2.43.0


From c131e1d328d69a2f3f14d3cc1965ae84614afdda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:20 +0000
Subject: [PATCH 30/46] fix: reject negative page sizes instead of panicking

---
 pkg/trait/electricpb/model_server.go    | 4 ++++
 pkg/trait/electricpb/pages.go           | 7 +++++++
 pkg/trait/hailpb/model_server.go        | 4 ++++
 pkg/trait/hailpb/pages.go               | 7 +++++++
 pkg/trait/parentpb/model_server.go      | 4 ++++
 pkg/trait/parentpb/pages.go             | 7 +++++++
 pkg/trait/publicationpb/model_server.go | 4 ++++
 pkg/trait/publicationpb/pages.go        | 7 +++++++
 pkg/trait/vendingpb/model_server.go     | 8 ++++++++
 pkg/trait/vendingpb/pages.go            | 7 +++++++
 10 files changed, 59 insertions(+)

diff --git a/pkg/trait/electricpb/model_server.go b/pkg/trait/electricpb/model_server.go
index 924df5e..fc2c892 100644
--- a/pkg/trait/electricpb/model_server.go
+++ b/pkg/trait/electricpb/model_server.go
@@ -103,6 +103,10 @@ func (s *ModelServer) ListModes(_ context.Context, request *traits.ListModesRequ
 		return nil, err
 	}
 
+	if err := checkPageSize(request.GetPageSize()); err != nil {
+		return nil, err
+	}
+
 	lastKey := pageToken.GetLastResourceName() // the key() of the last item we sent
 	pageSize := capPageSize(int(request.GetPageSize()))
 
diff --git a/pkg/trait/electricpb/pages.go b/pkg/trait/electricpb/pages.go
index 0cad80e..42e3e41 100644
--- a/pkg/trait/electricpb/pages.go
+++ b/pkg/trait/electricpb/pages.go
@@ -25,6 +25,13 @@ func capPageSize(pageSize int) int {
 	return pageSize
 }
 
+func checkPageSize(pageSize int32) error {
+	if pageSize < 0 {
+		return status.Errorf(codes.InvalidArgument, "bad page size: %d", pageSize)
+	}
+	return nil
+}
+
 func decodePageToken(token string, pageToken *types.PageToken) error {
 	if token != "" {
 		tokenBytes, err := base64.StdEncoding.DecodeString(token)
diff --git a/pkg/trait/hailpb/model_server.go b/pkg/trait/hailpb/model_server.go
index fc074d3..879f1e0 100644
--- a/pkg/trait/hailpb/model_server.go
+++ b/pkg/trait/hailpb/model_server.go
@@ -77,6 +77,10 @@ func (m *ModelServer) ListHails(_ context.Context, request *traits.ListHailsRequ
 		return nil, err
 	}
 
+	if err := checkPageSize(request.GetPageSize()); err != nil {
+		return nil, err
+	}
+
 	lastKey := pageToken.GetLastResourceName() // the key() of the last item we sent
 	pageSize := capPageSize(int(request.GetPageSize()))
 
diff --git a/pkg/trait/hailpb/pages.go b/pkg/trait/hailpb/pages.go
index 4b8b484..e6c12ba 100644
--- a/pkg/trait/hailpb/pages.go
+++ b/pkg/trait/hailpb/pages.go
@@ -25,6 +25,13 @@ func capPageSize(pageSize int) int {
 	return pageSize
 }
 
+func checkPageSize(pageSize int32) error {
+	if pageSize < 0 {
+		return status.Errorf(codes.InvalidArgument, "bad page size: %d", pageSize)
+	}
+	return nil
+}
+
 func decodePageToken(token string, pageToken *types.PageToken) error {
 	if token != "" {
 		tokenBytes, err := base64.StdEncoding.DecodeString(token)
diff --git a/pkg/trait/parentpb/model_server.go b/pkg/trait/parentpb/model_server.go
index c141888..7bdae88 100644
--- a/pkg/trait/parentpb/model_server.go
+++ b/pkg/trait/parentpb/model_server.go
@@ -30,6 +30,10 @@ func (s *ModelServer) ListChildren(_ context.Context, request *traits.ListChildr
 		return nil, err
 	}
 
+	if err := checkPageSize(request.GetPageSize()); err != nil {
+		return nil, err
+	}
+
 	lastKey := pageToken.GetLastResourceName() // the key() of the last item we sent
 	pageSize := capPageSize(int(request.GetPageSize()))
 
diff --git a/pkg/trait/parentpb/pages.go b/pkg/trait/parentpb/pages.go
index d66501e..5ab21cc 100644
--- a/pkg/trait/parentpb/pages.go
+++ b/pkg/trait/parentpb/pages.go
@@ -25,6 +25,13 @@ func capPageSize(pageSize int) int {
 	return pageSize
 }
 
+func checkPageSize(pageSize int32) error {
+	if pageSize < 0 {
+		return status.Errorf(codes.InvalidArgument, "bad page size: %d", pageSize)
+	}
+	return nil
+}
+
 func decodePageToken(token string, pageToken *types.PageToken) error {
 	if token != "" {
 		tokenBytes, err := base64.StdEncoding.DecodeString(token)
diff --git a/pkg/trait/publicationpb/model_server.go b/pkg/trait/publicationpb/model_server.go
index 09e24e1..ae02e56 100644
--- a/pkg/trait/publicationpb/model_server.go
+++ b/pkg/trait/publicationpb/model_server.go
@@ -104,6 +104,10 @@ func (m *ModelServer) ListPublications(_ context.Context, request *traits.ListPu
 		return nil, err
 	}
 
+	if err := checkPageSize(request.GetPageSize()); err != nil {
+		return nil, err
+	}
+
 	lastKey := pageToken.GetLastResourceName() // the key() of the last item we sent
 	pageSize := capPageSize(int(request.GetPageSize()))
 
diff --git a/pkg/trait/publicationpb/pages.go b/pkg/trait/publicationpb/pages.go
index bb56648..460a182 100644
--- a/pkg/trait/publicationpb/pages.go
+++ b/pkg/trait/publicationpb/pages.go
@@ -25,6 +25,13 @@ func capPageSize(pageSize int) int {
 	return pageSize
 }
 
+func checkPageSize(pageSize int32) error {
+	if pageSize < 0 {
+		return status.Errorf(codes.InvalidArgument, "bad page size: %d", pageSize)
+	}
+	return nil
+}
+
 func decodePageToken(token string, pageToken *types.PageToken) error {
 	if token != "" {
 		tokenBytes, err := base64.StdEncoding.DecodeString(token)
diff --git a/pkg/trait/vendingpb/model_server.go b/pkg/trait/vendingpb/model_server.go
index 4e5fb8f..dd9d546 100644
--- a/pkg/trait/vendingpb/model_server.go
+++ b/pkg/trait/vendingpb/model_server.go
@@ -38,6 +38,10 @@ func (m *ModelServer) ListConsumables(_ context.Context, request *traits.ListCon
 		return nil, err
 	}
 
+	if err := checkPageSize(request.GetPageSize()); err != nil {
+		return nil, err
+	}
+
 	lastKey := pageToken.GetLastResourceName() // the key() of the last item we sent
 	pageSize := capPageSize(int(request.GetPageSize()))
 
@@ -116,6 +120,10 @@ func (m *ModelServer) ListInventory(_ context.Context, request *traits.ListInven
 		return nil, err
 	}
 
+	if err := checkPageSize(request.GetPageSize()); err != nil {
+		return nil, err
+	}
+
 	lastKey := pageToken.GetLastResourceName() // the key() of the last item we sent
 	pageSize := capPageSize(int(request.GetPageSize()))
 
diff --git a/pkg/trait/vendingpb/pages.go b/pkg/trait/vendingpb/pages.go
index 34f0695..4a88a09 100644
--- a/pkg/trait/vendingpb/pages.go
+++ b/pkg/trait/vendingpb/pages.go
@@ -25,6 +25,13 @@ func capPageSize(pageSize int) int {
 	return pageSize
 }
 
+func checkPageSize(pageSize int32) error {
+	if pageSize < 0 {
+		return status.Errorf(codes.InvalidArgument, "bad page size: %d", pageSize)
+	}
+	return nil
+}
+
 func decodePageToken(token string, pageToken *types.PageToken) error {
 	if token != "" {
 		tokenBytes, err := base64.StdEncoding.DecodeString(token)
-- 
2.43.0


From 6719fc1358fc7d34cb1e877d5a53e07fa9985be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:22 +0000
Subject: [PATCH 31/46] fix: use unfiltered items when paging

Read masks that don't include the key resulted in page tokens that start
again from the first page.
---
 pkg/trait/electricpb/model_server.go    |  8 ++++++--
 pkg/trait/hailpb/model_server.go        |  8 ++++++--
 pkg/trait/publicationpb/model_server.go |  8 ++++++--
 pkg/trait/vendingpb/model_server.go     | 15 +++++++++++----
 4 files changed, 29 insertions(+), 10 deletions(-)

diff --git a/pkg/trait/electricpb/model_server.go b/pkg/trait/electricpb/model_server.go
index fc2c892..b6bd596 100644
--- a/pkg/trait/electricpb/model_server.go
+++ b/pkg/trait/electricpb/model_server.go
@@ -12,6 +12,7 @@ import (
 	"github.com/smart-core-os/sc-api/go/traits"
 	"github.com/smart-core-os/sc-api/go/types"
 
+	"github.com/smart-core-os/sc-golang/pkg/masks"
 	"github.com/smart-core-os/sc-golang/pkg/resource"
 )
 
@@ -110,7 +111,7 @@ func (s *ModelServer) ListModes(_ context.Context, request *traits.ListModesRequ
 	lastKey := pageToken.GetLastResourceName() // the key() of the last item we sent
 	pageSize := capPageSize(int(request.GetPageSize()))
 
-	sortedModes := s.model.Modes(resource.WithReadMask(request.ReadMask))
+	sortedModes := s.model.Modes() // unfiltered, paging needs the key
 	nextIndex := 0
 	if lastKey != "" {
 		nextIndex = sort.Search(len(sortedModes), func(i int) bool {
@@ -136,7 +137,10 @@ func (s *ModelServer) ListModes(_ context.Context, request *traits.ListModesRequ
 	if err != nil {
 		return nil, err
 	}
-	result.Modes = sortedModes[nextIndex:upperBound]
+	filter := masks.NewResponseFilter(masks.WithFieldMask(request.ReadMask))
+	for _, item := range sortedModes[nextIndex:upperBound] {
+		result.Modes = append(result.Modes, filter.FilterClone(item).(*traits.ElectricMode))
+	}
 	return result, nil
 }
 
diff --git a/pkg/trait/hailpb/model_server.go b/pkg/trait/hailpb/model_server.go
index 879f1e0..6bbaa4c 100644
--- a/pkg/trait/hailpb/model_server.go
+++ b/pkg/trait/hailpb/model_server.go
@@ -12,6 +12,7 @@ import (
 
 	"github.com/smart-core-os/sc-api/go/traits"
 	"github.com/smart-core-os/sc-api/go/types"
+	"github.com/smart-core-os/sc-golang/pkg/masks"
 	"github.com/smart-core-os/sc-golang/pkg/resource"
 )
 
@@ -84,7 +85,7 @@ func (m *ModelServer) ListHails(_ context.Context, request *traits.ListHailsRequ
 	lastKey := pageToken.GetLastResourceName() // the key() of the last item we sent
 	pageSize := capPageSize(int(request.GetPageSize()))
 
-	sortedItems := m.model.ListHails(resource.WithReadMask(request.ReadMask))
+	sortedItems := m.model.ListHails() // unfiltered, paging needs the key
 	nextIndex := 0
 	if lastKey != "" {
 		nextIndex = sort.Search(len(sortedItems), func(i int) bool {
@@ -110,7 +111,10 @@ func (m *ModelServer) ListHails(_ context.Context, request *traits.ListHailsRequ
 	if err != nil {
 		return nil, err
 	}
-	result.Hails = sortedItems[nextIndex:upperBound]
+	filter := masks.NewResponseFilter(masks.WithFieldMask(request.ReadMask))
+	for _, item := range sortedItems[nextIndex:upperBound] {
+		result.Hails = append(result.Hails, filter.FilterClone(item).(*traits.Hail))
+	}
 	return result, nil
 }
 
diff --git a/pkg/trait/publicationpb/model_server.go b/pkg/trait/publicationpb/model_server.go
index ae02e56..f9970b3 100644
--- a/pkg/trait/publicationpb/model_server.go
+++ b/pkg/trait/publicationpb/model_server.go
@@ -12,6 +12,7 @@ import (
 
 	"github.com/smart-core-os/sc-api/go/traits"
 	"github.com/smart-core-os/sc-api/go/types"
+	"github.com/smart-core-os/sc-golang/pkg/masks"
 	"github.com/smart-core-os/sc-golang/pkg/resource"
 )
 
@@ -111,7 +112,7 @@ func (m *ModelServer) ListPublications(_ context.Context, request *traits.ListPu
 	lastKey := pageToken.GetLastResourceName() // the key() of the last item we sent
 	pageSize := capPageSize(int(request.GetPageSize()))
 
-	sortedItems := m.model.ListPublications(resource.WithReadMask(request.ReadMask))
+	sortedItems := m.model.ListPublications() // unfiltered, paging needs the key
 	nextIndex := 0
 	if lastKey != "" {
 		nextIndex = sort.Search(len(sortedItems), func(i int) bool {
@@ -137,7 +138,10 @@ func (m *ModelServer) ListPublications(_ context.Context, request *traits.ListPu
 	if err != nil {
 		return nil, err
 	}
-	result.Publications = sortedItems[nextIndex:upperBound]
+	filter := masks.NewResponseFilter(masks.WithFieldMask(request.ReadMask))
+	for _, item := range sortedItems[nextIndex:upperBound] {
+		result.Publications = append(result.Publications, filter.FilterClone(item).(*traits.Publication))
+	}
 	return result, nil
 }
 
diff --git a/pkg/trait/vendingpb/model_server.go b/pkg/trait/vendingpb/model_server.go
index dd9d546..dd09a08 100644
--- a/pkg/trait/vendingpb/model_server.go
+++ b/pkg/trait/vendingpb/model_server.go
@@ -11,6 +11,7 @@ import (
 
 	"github.com/smart-core-os/sc-api/go/traits"
 	"github.com/smart-core-os/sc-api/go/types"
+	"github.com/smart-core-os/sc-golang/pkg/masks"
 	"github.com/smart-core-os/sc-golang/pkg/resource"
 )
 
@@ -45,7 +46,7 @@ func (m *ModelServer) ListConsumables(_ context.Context, request *traits.ListCon
 	lastKey := pageToken.GetLastResourceName() // the key() of the last item we sent
 	pageSize := capPageSize(int(request.GetPageSize()))
 
-	sortedItems := m.model.ListConsumables(resource.WithReadMask(request.ReadMask))
+	sortedItems := m.model.ListConsumables() // unfiltered, paging needs the key
 	nextIndex := 0
 	if lastKey != "" {
 		nextIndex = sort.Search(len(sortedItems), func(i int) bool {
@@ -71,7 +72,10 @@ func (m *ModelServer) ListConsumables(_ context.Context, request *traits.ListCon
 	if err != nil {
 		return nil, err
 	}
-	result.Consumables = sortedItems[nextIndex:upperBound]
+	filter := masks.NewResponseFilter(masks.WithFieldMask(request.ReadMask))
+	for _, item := range sortedItems[nextIndex:upperBound] {
+		result.Consumables = append(result.Consumables, filter.FilterClone(item).(*traits.Consumable))
+	}
 	return result, nil
 }
 
@@ -127,7 +131,7 @@ func (m *ModelServer) ListInventory(_ context.Context, request *traits.ListInven
 	lastKey := pageToken.GetLastResourceName() // the key() of the last item we sent
 	pageSize := capPageSize(int(request.GetPageSize()))
 
-	sortedItems := m.model.ListInventory(resource.WithReadMask(request.ReadMask))
+	sortedItems := m.model.ListInventory() // unfiltered, paging needs the key
 	nextIndex := 0
 	if lastKey != "" {
 		nextIndex = sort.Search(len(sortedItems), func(i int) bool {
@@ -153,7 +157,10 @@ func (m *ModelServer) ListInventory(_ context.Context, request *traits.ListInven
 	if err != nil {
 		return nil, err
 	}
-	result.Inventory = sortedItems[nextIndex:upperBound]
+	filter := masks.NewResponseFilter(masks.WithFieldMask(request.ReadMask))
+	for _, item := range sortedItems[nextIndex:upperBound] {
+		result.Inventory = append(result.Inventory, filter.FilterClone(item).(*traits.Consumable_Stock))
+	}
 	return result, nil
 }
 
-- 
2.43.0


From 2705519aac6bd09b548dae857525c8c12e544335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:01 +0000
Subject: [PATCH 32/46] fix: make tolerance comparers reflexive and symmetric

Floats treated NaN and infinities as never equal or always close, percentages of durations compared the ratio of the durations with the percentage, and the difference between far apart durations overflowed. Also ignore the change time of changes even when only one of them has one.
---
 pkg/cmp/cmp.go    | 16 ++++++++++++----
 pkg/cmp/number.go |  6 ++++++
 pkg/cmp/time.go   | 18 +++++++++++-------
 3 files changed, 29 insertions(+), 11 deletions(-)

diff --git a/pkg/cmp/cmp.go b/pkg/cmp/cmp.go
index 5d37979..06657b7 100644
--- a/pkg/cmp/cmp.go
+++ b/pkg/cmp/cmp.go
@@ -45,6 +45,9 @@ func (eq equator) equalMessage(mx, my pref.Message) bool {
 	nx := 0
 	equal := true
 	mx.Range(func(fd pref.FieldDescriptor, vx pref.Value) bool {
+		if ignoreField(fd) {
+			return true
+		}
 		nx++
 		vy := my.Get(fd)
 		equal = my.Has(fd) && eq.equalField(fd, vx, vy)
@@ -55,7 +58,9 @@ func (eq equator) equalMessage(mx, my pref.Message) bool {
 	}
 	ny := 0
 	my.Range(func(fd pref.FieldDescriptor, vx pref.Value) bool {
-		ny++
+		if !ignoreField(fd) {
+			ny++
+		}
 		return true
 	})
 	if nx != ny {
@@ -65,12 +70,15 @@ func (eq equator) equalMessage(mx, my pref.Message) bool {
 	return eq.equalUnknown(mx.GetUnknown(), my.GetUnknown())
 }
 
+// ignoreField returns whether fd, set or not, has no effect on equality.
+// This is the case we've added over proto.Equal, ignore PullResponse.Change.change_time.
+func ignoreField(fd pref.FieldDescriptor) bool {
+	return fd.Name() == "change_time" && fd.ContainingMessage().Name() == "Change"
+}
+
 // equalField compares two fields.
 func (eq equator) equalField(fd pref.FieldDescriptor, x, y pref.Value) bool {
 	switch {
-	// This is the case we've added, ignore PullResponse.Change.change_time
-	case fd.Name() == "change_time" && fd.ContainingMessage().Name() == "Change":
-		return true
 	case fd.IsList():
 		return eq.equalList(fd, x.List(), y.List())
 	case fd.IsMap():
diff --git a/pkg/cmp/number.go b/pkg/cmp/number.go
index b874ff2..72c3701 100644
--- a/pkg/cmp/number.go
+++ b/pkg/cmp/number.go
@@ -14,6 +14,12 @@ func FloatValueApprox(fraction, margin float64) Value {
 			return false, false
 		}
 		fx, fy := x.Float(), y.Float()
+		if math.IsNaN(fx) || math.IsNaN(fy) {
+			return math.IsNaN(fx) && math.IsNaN(fy), true
+		}
+		if math.IsInf(fx, 0) || math.IsInf(fy, 0) {
+			return fx == fy, true // an infinity is not close to anything but itself
+		}
 		relMarg := fraction * math.Min(math.Abs(fx), math.Abs(fy))
 		return math.Abs(fx-fy) <= math.Max(margin, relMarg), true
 	}
diff --git a/pkg/cmp/time.go b/pkg/cmp/time.go
index f7b980a..20dcb82 100644
--- a/pkg/cmp/time.go
+++ b/pkg/cmp/time.go
@@ -1,6 +1,7 @@
 package cmp
 
 import (
+	"math"
 	"time"
 
 	pref "google.golang.org/protobuf/reflect/protoreflect"
@@ -46,24 +47,27 @@ func DurationValueWithin(d time.Duration) Value {
 			return equal, ok
 		}
 		if xd < yd {
-			return yd-xd <= d, true
+			xd, yd = yd, xd
 		}
-		return xd-yd <= d, true
+		diff := xd - yd
+		if diff < 0 {
+			return false, true // overflow, they are further apart than any duration
+		}
+		return diff <= d, true
 	}
 }
 
 // DurationValueWithinP considers two durationpb.Duration to be equal if their values are within p percent of each other.
+// The percentage is of the value closest to zero.
 func DurationValueWithinP(p float32) Value {
 	return func(fd pref.FieldDescriptor, x, y pref.Value) (equal, ok bool) {
 		xd, yd, equal, ok, returnEarly := cmpDuration(fd, x, y)
 		if returnEarly {
 			return equal, ok
 		}
-		pd := float32(xd) / float32(yd)
-		if pd < 0 {
-			pd = -pd
-		}
-		return pd < p, true
+		fx, fy := float64(xd), float64(yd)
+		smallest := math.Min(math.Abs(fx), math.Abs(fy))
+		return math.Abs(fx-fy) <= smallest*float64(p)/100, true
 	}
 }
 
-- 
2.43.0


From 6fce98698a83223bdd5cbf775f1eee6353ba52ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:01 +0000
Subject: [PATCH 33/46] fix: handle groups with no members and early returns

Execute would panic when using the one, fast, or race strategy without any members, and members that respond after fast or race have returned would be blocked forever.
---
 pkg/group/exec.go | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/pkg/group/exec.go b/pkg/group/exec.go
index 5fc4ad4..d9ae570 100644
--- a/pkg/group/exec.go
+++ b/pkg/group/exec.go
@@ -39,22 +39,25 @@ func Execute(ctx context.Context, strategy ExecutionStrategy, members []Member)
 		return ExecuteAny(ctx, members)
 	case ExecutionStrategyOne:
 		res, i, err := ExecuteOne(ctx, members)
-		allRes := make([]proto.Message, len(members))
-		allRes[i] = res
-		return allRes, err
+		return resultAt(res, i, len(members)), err
 	case ExecutionStrategyFast:
 		res, i, err := ExecuteFast(ctx, members)
-		allRes := make([]proto.Message, len(members))
-		allRes[i] = res
-		return allRes, err
+		return resultAt(res, i, len(members)), err
 	case ExecutionStrategyRace:
 		res, i, err := ExecuteRace(ctx, members)
-		allRes := make([]proto.Message, len(members))
-		allRes[i] = res
-		return allRes, err
+		return resultAt(res, i, len(members)), err
 	}
 }
 
+// resultAt returns a slice of n results with only the i'th set.
+func resultAt(res proto.Message, i, n int) []proto.Message {
+	results := make([]proto.Message, n)
+	if i < n { // there is no i'th result when there are no members
+		results[i] = res
+	}
+	return results
+}
+
 // ExecuteAll executes all the member functions in parallel,
 // if any return errors then this will return the first reported error.
 // Incomplete executions will have their context cancelled on error,
@@ -169,7 +172,8 @@ func ExecuteRace(ctx context.Context, members []Member) (proto.Message, int, err
 // The returned chan will contain the responses in completion order.
 // The chan will be closed once all members have returned a result.
 func executeEach(ctx context.Context, members []Member) <-chan memberResponse {
-	responses := make(chan memberResponse)
+	// buffered so that members can finish even if the caller has stopped listening
+	responses := make(chan memberResponse, len(members))
 	var all sync.WaitGroup
 	all.Add(len(members))
 
-- 
2.43.0


From 73561a6baf0cdd6433ffd42be19d3862e4b808f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:59 +0000
Subject: [PATCH 34/46] fix: compare timestamps without overflowing

---
 pkg/time/timestamp.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/pkg/time/timestamp.go b/pkg/time/timestamp.go
index 8c6715e..6cfbdd0 100644
--- a/pkg/time/timestamp.go
+++ b/pkg/time/timestamp.go
@@ -4,9 +4,16 @@ import "google.golang.org/protobuf/types/known/timestamppb"
 
 // CompareAscending returns -1 if t1 is before t2, 1 if t1 is after t2 and 0 if t1 is equal to t2
 func CompareAscending(t1, t2 *timestamppb.Timestamp) int {
-	seconds := t1.Seconds - t2.Seconds
-	if seconds != 0 {
-		return int(seconds)
+	switch {
+	case t1.Seconds < t2.Seconds:
+		return -1
+	case t1.Seconds > t2.Seconds:
+		return 1
+	case t1.Nanos < t2.Nanos:
+		return -1
+	case t1.Nanos > t2.Nanos:
+		return 1
+	default:
+		return 0
 	}
-	return int(t1.Nanos - t2.Nanos)
 }
-- 
2.43.0


From 0dce0bfb320d3ff34d35dbacec56a0635cb2368b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:59 +0000
Subject: [PATCH 35/46] fix: empty periods don't intersect with anything

---
 pkg/time/period.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/time/period.go b/pkg/time/period.go
index d775a21..33b1f13 100644
--- a/pkg/time/period.go
+++ b/pkg/time/period.go
@@ -37,6 +37,10 @@ func PeriodsIntersect(p1, p2 *time.Period) bool {
 	p1lower, p1upper := cutPeriod(p1)
 	p2lower, p2upper := cutPeriod(p2)
 
+	if p1lower.CompareTo(p1upper) >= 0 || p2lower.CompareTo(p2upper) >= 0 {
+		return false // empty periods don't enclose any non-empty Period
+	}
+
 	return p1lower.CompareTo(p2upper) < 0 &&
 		p2lower.CompareTo(p1upper) < 0
 }
-- 
2.43.0


From 31634617f2d8642bc745b45ad4f30e64e7123bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:59 +0000
Subject: [PATCH 36/46] fix: keep the infinite tail of summed segments

Negative infinite segments were dropped, and rounding errors could leave an infinite segment after summing finite ones.
---
 pkg/trait/electricpb/segmentpb/sum.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/pkg/trait/electricpb/segmentpb/sum.go b/pkg/trait/electricpb/segmentpb/sum.go
index a2d53ea..d1d42bb 100644
--- a/pkg/trait/electricpb/segmentpb/sum.go
+++ b/pkg/trait/electricpb/segmentpb/sum.go
@@ -38,8 +38,9 @@ func Sum(segmentSlices ...[]*traits.ElectricMode_Segment) []*traits.ElectricMode
 	}
 
 	if len(result) > 0 {
+		// The last segment has no length, it's what remains after all the finite segments have ended.
 		last := result[len(result)-1]
-		if last.Length == nil && last.Magnitude <= 0 {
+		if last.Magnitude == 0 || !anyInfinite(segmentSlices...) {
 			result = result[:len(result)-1]
 		}
 	}
@@ -47,6 +48,16 @@ func Sum(segmentSlices ...[]*traits.ElectricMode_Segment) []*traits.ElectricMode
 	return result
 }
 
+// anyInfinite returns whether any of the segment slices never ends.
+func anyInfinite(segmentSlices ...[]*traits.ElectricMode_Segment) bool {
+	for _, slice := range segmentSlices {
+		if _, infinite := Duration(slice...); infinite {
+			return true
+		}
+	}
+	return false
+}
+
 func calcCuts(segmentSlices ...[]*traits.ElectricMode_Segment) []cut {
 	var cuts []cut
 	for _, slice := range segmentSlices {
-- 
2.43.0


From 1a731ba6906067e3fb251a0a8cf5521439871fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:19 +0000
Subject: [PATCH 37/46] fix: uphold electric mode invariants when updating and
 deleting

An update could result in a second normal mode, deleting an absent mode failed even if missing modes were allowed, and changing to the mode that's already active removed its start time.
---
 pkg/trait/electricpb/model.go | 42 ++++++++++++++++++++++++++---------
 1 file changed, 31 insertions(+), 11 deletions(-)

diff --git a/pkg/trait/electricpb/model.go b/pkg/trait/electricpb/model.go
index 99fc037..7b3471e 100644
--- a/pkg/trait/electricpb/model.go
+++ b/pkg/trait/electricpb/model.go
@@ -9,6 +9,7 @@ import (
 	"google.golang.org/grpc/codes"
 	"google.golang.org/grpc/status"
 	"google.golang.org/protobuf/proto"
+	"google.golang.org/protobuf/types/known/fieldmaskpb"
 	"google.golang.org/protobuf/types/known/timestamppb"
 
 	"github.com/smart-core-os/sc-api/go/traits"
@@ -175,6 +176,9 @@ func (m *Model) changeActiveMode(id string) (*traits.ElectricMode, error) {
 		newMode := new.(*traits.ElectricMode)
 		if oldMode.Id != newMode.Id {
 			newMode.StartTime = timestamppb.New(m.clock.Now())
+		} else {
+			// the mode hasn't changed, so neither has the time it became active
+			newMode.StartTime = proto.Clone(oldMode.StartTime).(*timestamppb.Timestamp)
 		}
 	}))
 	if err != nil {
@@ -283,7 +287,7 @@ func (m *Model) createOrAddMode(mode *traits.ElectricMode) (*traits.ElectricMode
 }
 
 // DeleteMode will remove the mode with the given Id from the device.
-// If the mode does not exist, then ErrModeNotFound is returned.
+// If the mode does not exist, then an error with code NotFound is returned, unless resource.WithAllowMissing is used.
 // If the mode specified is the active mode, then ErrDeleteActiveMode is returned and the mode is not deleted.
 // Otherwise, the operation succeeded and nil is returned.
 func (m *Model) DeleteMode(id string, opts ...resource.WriteOption) error {
@@ -295,23 +299,20 @@ func (m *Model) DeleteMode(id string, opts ...resource.WriteOption) error {
 func (m *Model) deleteMode(id string, opts ...resource.WriteOption) error {
 	active := m.activeMode.Get().(*traits.ElectricMode)
 	if id == active.Id {
-		return ErrDeleteActiveMode
-	}
-
-	msg, err := m.modes.Delete(id, opts...)
-	if err != nil {
-		return err
-	}
-	if msg == nil {
-		return ErrModeNotFound
+		// the initial active mode doesn't exist, it can't be deleted because it's absent not because it's active
+		if _, exists := m.findMode(id); exists {
+			return ErrDeleteActiveMode
+		}
 	}
 
-	return nil
+	_, err := m.modes.Delete(id, opts...)
+	return err
 }
 
 // UpdateMode will modify one of the modes stored in this device.
 // The mode to be modified is specified by mode.Id, which must be set.
 // Fields to be modified can be selected using mask - to modify all fields, pass a nil mask.
+// If the update would result in more than one normal mode, then ErrNormalModeExists will result.
 func (m *Model) UpdateMode(mode *traits.ElectricMode, opts ...resource.WriteOption) (*traits.ElectricMode, error) {
 	m.mu.Lock()
 	defer m.mu.Unlock()
@@ -319,6 +320,12 @@ func (m *Model) UpdateMode(mode *traits.ElectricMode, opts ...resource.WriteOpti
 }
 
 func (m *Model) updateMode(mode *traits.ElectricMode, opts ...resource.WriteOption) (*traits.ElectricMode, error) {
+	if mode.Normal && updatesNormal(resource.ComputeWriteConfig(opts...).UpdateMask) {
+		if normal, ok := m.normalMode(); ok && normal.Id != mode.Id {
+			return nil, ErrNormalModeExists
+		}
+	}
+
 	msg, err := m.modes.Update(mode.Id, mode, opts...)
 	if err != nil {
 		return nil, err
@@ -326,6 +333,19 @@ func (m *Model) updateMode(mode *traits.ElectricMode, opts ...resource.WriteOpti
 	return msg.(*traits.ElectricMode), nil
 }
 
+// updatesNormal returns whether an update using mask would write ElectricMode.Normal.
+func updatesNormal(mask *fieldmaskpb.FieldMask) bool {
+	if mask == nil {
+		return true
+	}
+	for _, path := range mask.GetPaths() {
+		if path == "normal" {
+			return true
+		}
+	}
+	return false
+}
+
 // PullModes subscribes to changes to modes. Creation, modification or deletion of a mode on this device will send
 // a PullModesChange describing the event down the changes channel.
 // The returned channel will be closed when done is called. You must call done after you are finished with the channel
-- 
2.43.0


From ee42b443d39b328e577985eb832ea1786aea7b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:07 +0000
Subject: [PATCH 38/46] fix: correct dispensing and options of the vending
 model

The remaining amount was converted to its own unit but stored with the unit of the used amount, or panicked without one. Errors converting units were dropped. Consumable options were applied to the inventory.
---
 pkg/trait/vendingpb/model.go      | 4 ++--
 pkg/trait/vendingpb/model_opts.go | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/trait/vendingpb/model.go b/pkg/trait/vendingpb/model.go
index ae5074d..0171d63 100644
--- a/pkg/trait/vendingpb/model.go
+++ b/pkg/trait/vendingpb/model.go
@@ -241,7 +241,7 @@ func (m *Model) DispenseInstantly(consumable string, quantity *traits.Consumable
 		return nil, err
 	}
 	if maskedErr != nil {
-		return nil, err
+		return nil, maskedErr
 	}
 	return stock, nil
 }
@@ -263,7 +263,7 @@ func updateStock(quantity *traits.Consumable_Quantity, src, dst *traits.Consumab
 		if amount < 0 {
 			amount = 0
 		}
-		dst.Remaining = &traits.Consumable_Quantity{Unit: src.Used.Unit, Amount: amount}
+		dst.Remaining = &traits.Consumable_Quantity{Unit: src.Remaining.Unit, Amount: amount}
 	}
 	return nil
 }
diff --git a/pkg/trait/vendingpb/model_opts.go b/pkg/trait/vendingpb/model_opts.go
index f579abc..d1f1421 100644
--- a/pkg/trait/vendingpb/model_opts.go
+++ b/pkg/trait/vendingpb/model_opts.go
@@ -41,7 +41,7 @@ func WithInitialStock(inventory ...*traits.Consumable_Stock) resource.Option {
 // WithConsumablesOption configures the consumables resource of the model.
 func WithConsumablesOption(opts ...resource.Option) resource.Option {
 	return modelOptionFunc(func(args *modelArgs) {
-		args.inventoryOptions = append(args.inventoryOptions, opts...)
+		args.consumableOptions = append(args.consumableOptions, opts...)
 	})
 }
 
-- 
2.43.0


From 8529f2ee8cd38ee6af8aa4ee83ef1435a38a02bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:07 +0000
Subject: [PATCH 39/46] fix: support the given modes

---
 pkg/trait/modepb/model.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/trait/modepb/model.go b/pkg/trait/modepb/model.go
index 33f7038..3b73d7f 100644
--- a/pkg/trait/modepb/model.go
+++ b/pkg/trait/modepb/model.go
@@ -48,7 +48,7 @@ func NewModelModes(modes *traits.Modes) *Model {
 	}
 
 	model := &Model{
-		modes: DefaultModes,
+		modes: modes,
 		modeValues: resource.NewValue(
 			resource.WithInitialValue(modeValues),
 		),
-- 
2.43.0


From a8d20e98ad00cb2d8f401513f93c007559220ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:07 +0000
Subject: [PATCH 40/46] fix: don't lose meter start time and initial value

---
 pkg/trait/meterpb/model.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pkg/trait/meterpb/model.go b/pkg/trait/meterpb/model.go
index 220e3a3..f397706 100644
--- a/pkg/trait/meterpb/model.go
+++ b/pkg/trait/meterpb/model.go
@@ -23,7 +23,8 @@ func NewModel(opts ...resource.Option) *Model {
 		oldVal := old.(*traits.MeterReading)
 		newVal := new.(*traits.MeterReading)
 		now := value.Clock().Now()
-		if oldVal.StartTime == nil {
+		proto.Merge(newVal, oldVal) // keep the initial value
+		if newVal.StartTime == nil {
 			newVal.StartTime = timestamppb.New(now)
 		}
 		if newVal.EndTime == nil {
@@ -48,8 +49,9 @@ func (m *Model) UpdateMeterReading(meterReading *traits.MeterReading, opts ...re
 }
 
 // RecordReading records a new usage value, updating end time to now.
+// The start time is not changed.
 func (m *Model) RecordReading(val float32) (*traits.MeterReading, error) {
-	return m.UpdateMeterReading(&traits.MeterReading{Usage: val}, resource.InterceptBefore(func(old, new proto.Message) {
+	return m.UpdateMeterReading(&traits.MeterReading{Usage: val}, resource.WithUpdatePaths("usage", "end_time"), resource.InterceptBefore(func(old, new proto.Message) {
 		now := m.meterReading.Clock().Now()
 		newVal := new.(*traits.MeterReading)
 		newVal.EndTime = timestamppb.New(now)
-- 
2.43.0


From 5e0e942d032fa654db0221c62eeb274e973e661c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:07 +0000
Subject: [PATCH 41/46] fix: honour allow acknowledged for publications

The error that was checked for never made it through the collection.
---
 pkg/trait/publicationpb/model_server.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/trait/publicationpb/model_server.go b/pkg/trait/publicationpb/model_server.go
index f9970b3..17ce078 100644
--- a/pkg/trait/publicationpb/model_server.go
+++ b/pkg/trait/publicationpb/model_server.go
@@ -177,6 +177,7 @@ func (m *ModelServer) AcknowledgePublication(_ context.Context, request *traits.
 	p, err := m.model.UpdatePublication(request.Id, received,
 		resource.WithUpdatePaths("audience.receipt", "audience.receipt_rejected_reason"),
 		resource.WithExpectedCheck(func(msg proto.Message) error {
+			acknowledgedPub = nil // in case we're called more than once
 			val := msg.(*traits.Publication)
 			// check the version matches
 			if val.Version != request.Version {
@@ -185,7 +186,7 @@ func (m *ModelServer) AcknowledgePublication(_ context.Context, request *traits.
 			// check an ACK hasn't already been processed
 			receipt := val.GetAudience().GetReceipt()
 			if receipt == traits.Publication_Audience_ACCEPTED || receipt == traits.Publication_Audience_REJECTED {
-				acknowledgedPub = val
+				acknowledgedPub = proto.Clone(val).(*traits.Publication)
 				return alreadyAcknowledged
 			}
 
@@ -197,7 +198,7 @@ func (m *ModelServer) AcknowledgePublication(_ context.Context, request *traits.
 		}),
 	)
 
-	if err == alreadyAcknowledged && request.AllowAcknowledged {
+	if err != nil && acknowledgedPub != nil && request.AllowAcknowledged {
 		return acknowledgedPub, nil
 	}
 
-- 
2.43.0


From d8c4e5de0d750fda06dee2cbb747dc5939b6d17d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:31 +0000
Subject: [PATCH 42/46] fix: don't overflow relative mode adjustments

---
 pkg/trait/modepb/model_server.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/trait/modepb/model_server.go b/pkg/trait/modepb/model_server.go
index 4775640..217d92f 100644
--- a/pkg/trait/modepb/model_server.go
+++ b/pkg/trait/modepb/model_server.go
@@ -77,9 +77,9 @@ func (m *ModelServer) relativeAdjustment(relative map[string]int32) resource.Upd
 			// find the value index in our supported values, and adjust the value to the new index based on adjustment
 			for i, value := range values {
 				if value.Name == oldValue {
-					newI := (int32(i) + adjustment) % int32(len(values))
+					newI := (int64(i) + int64(adjustment)) % int64(len(values))
 					if newI < 0 {
-						newI = int32(len(values)) + newI
+						newI = int64(len(values)) + newI
 					}
 					newVal.Values[modeName] = values[newI].Name
 					continue adjustments
-- 
2.43.0


From 2a7c451d5e29b22673febc9d24353c02894b4226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:59 +0000
Subject: [PATCH 43/46] fix: don't send changes to subscribers that already
 know about them

---
 internal/minibus/bus.go    | 16 ++++++++++++++++
 pkg/resource/collection.go |  7 +++++--
 pkg/resource/value.go      |  4 +++-
 3 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/internal/minibus/bus.go b/internal/minibus/bus.go
index d90ab28..fd07fa3 100644
--- a/internal/minibus/bus.go
+++ b/internal/minibus/bus.go
@@ -11,6 +11,19 @@ type Bus struct {
 }
 
 func (b *Bus) Send(ctx context.Context, event any) (ok bool) {
+	return b.send(ctx, event, b.snapshot())
+}
+
+// Prepare returns a func that works like Send for those listening now.
+// Calls to Listen made after Prepare returns do not receive the event.
+func (b *Bus) Prepare() (send func(ctx context.Context, event any) (ok bool)) {
+	listeners := b.snapshot()
+	return func(ctx context.Context, event any) (ok bool) {
+		return b.send(ctx, event, listeners)
+	}
+}
+
+func (b *Bus) snapshot() []*listener {
 	// create a copy of the listeners so avoid holding the mutex a long time
 	var listeners []*listener
 	b.listenerM.RLock()
@@ -18,7 +31,10 @@ func (b *Bus) Send(ctx context.Context, event any) (ok bool) {
 		listeners = append(listeners, l)
 	}
 	b.listenerM.RUnlock()
+	return listeners
+}
 
+func (b *Bus) send(ctx context.Context, event any, listeners []*listener) (ok bool) {
 	needGc := false
 
 	// send the event to each listener that's not closed
diff --git a/pkg/resource/collection.go b/pkg/resource/collection.go
index 63c6e1a..bf3fa22 100644
--- a/pkg/resource/collection.go
+++ b/pkg/resource/collection.go
@@ -113,6 +113,7 @@ func (c *Collection) Update(id string, msg proto.Message, opts ...WriteOption) (
 	var changeTime time.Time  // what we stored as the change time, reported by the event too
 	var turn <-chan struct{}  // closed when it's our turn to publish the change
 	var published func()
+	var send func(ctx context.Context, event any) bool // sends to those who don't know about the change yet
 	oldValue, newValue, err := GetAndUpdate(
 		&c.mu,
 		func() (item proto.Message, err error) {
@@ -164,6 +165,7 @@ func (c *Collection) Update(id string, msg proto.Message, opts ...WriteOption) (
 			changeTime = writeRequest.updateTime(c.clock)
 			c.byId[id] = &item{body: msg, changeTime: changeTime}
 			turn, published = c.publish.join()
+			send = c.bus.Prepare()
 		})
 
 	if err != nil {
@@ -178,7 +180,7 @@ func (c *Collection) Update(id string, msg proto.Message, opts ...WriteOption) (
 		oldValue = nil
 	}
 	<-turn
-	c.bus.Send(context.TODO(), &CollectionChange{
+	send(context.TODO(), &CollectionChange{
 		Id:         id,
 		ChangeTime: changeTime,
 		ChangeType: changeType,
@@ -237,11 +239,12 @@ func (c *Collection) Delete(id string, opts ...WriteOption) (proto.Message, erro
 		delete(c.byId, id)
 		changeTime := args.updateTime(c.clock)
 		turn, published := c.publish.join()
+		send := c.bus.Prepare()
 		c.mu.Unlock()
 
 		defer published()
 		<-turn
-		c.bus.Send(context.TODO(), &CollectionChange{
+		send(context.TODO(), &CollectionChange{
 			Id:         id,
 			ChangeTime: changeTime,
 			ChangeType: types.ChangeType_REMOVE,
diff --git a/pkg/resource/value.go b/pkg/resource/value.go
index d390dca..1433d6f 100644
--- a/pkg/resource/value.go
+++ b/pkg/resource/value.go
@@ -63,6 +63,7 @@ func (r *Value) set(value proto.Message, request WriteRequest) (proto.Message, e
 	var changeTime time.Time // what we stored as the change time, reported by the event too
 	var turn <-chan struct{} // closed when it's our turn to publish the change
 	var published func()
+	var send func(ctx context.Context, event any) bool // sends to those who don't know about the change yet
 	disarm := timeoutAlarm(time.Second, "GetAndUpdate took too long")
 	_, newValue, err := GetAndUpdate(
 		&r.mu,
@@ -75,6 +76,7 @@ func (r *Value) set(value proto.Message, request WriteRequest) (proto.Message, e
 			changeTime = request.updateTime(r.clock)
 			r.changeTime = changeTime
 			turn, published = r.publish.join()
+			send = r.bus.Prepare()
 		},
 	)
 	disarm()
@@ -90,7 +92,7 @@ func (r *Value) set(value proto.Message, request WriteRequest) (proto.Message, e
 	case <-turn:
 	case <-ctx.Done():
 	}
-	r.bus.Send(ctx, &ValueChange{
+	send(ctx, &ValueChange{
 		Value:      newValue,
 		ChangeTime: changeTime,
 	})
-- 
2.43.0


From c26335fe8c88dc9bb288604f05327acd8e46a670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:29 +0000
Subject: [PATCH 44/46] fix: openclose subscriptions start with the current
 value when there are no positions

---
 go.sum                         |  1 +
 pkg/trait/openclosepb/model.go | 13 +++++++++++++
 2 files changed, 14 insertions(+)

diff --git a/go.sum b/go.sum
index 36f36f6..0b29f6c 100644
--- a/go.sum
+++ b/go.sum
@@ -27,6 +27,7 @@ github.com/google/go-cmp v0.4.0/go.mod h1:v8dTdLbMG2kIc/vJvl+f65V22dbkXbowE6jgT/
 github.com/google/go-cmp v0.5.5/go.mod h1:v8dTdLbMG2kIc/vJvl+f65V22dbkXbowE6jgT/gNBxE=
 github.com/google/go-cmp v0.6.0 h1:ofyhxvXcZhMsU5ulbFiLKl/XBFqE1GSq7atu8tAmTRI=
 github.com/google/go-cmp v0.6.0/go.mod h1:17dUlkBOakJ0+DkrSSNjCkIjxS6bF9zb3elmeNGIjoY=
+github.com/google/uuid v1.6.0/go.mod h1:TIyPZe4MgqvfeYDBFedMoGGpEw/LqOeaOT+nhxU+yHo=
 github.com/grpc-ecosystem/go-grpc-middleware/v2 v2.1.0 h1:pRhl55Yx1eC7BZ1N+BBWwnKaMyD8uC+34TLdndZMAKk=
 github.com/grpc-ecosystem/go-grpc-middleware/v2 v2.1.0/go.mod h1:XKMd7iuf/RGPSMJ/U4HP0zS2Z9Fh8Ps9a+6X26m/tmI=
 github.com/kr/pretty v0.1.0/go.mod h1:dAy3ld7l9f0ibDNOQOHHMYYIIbhfbHSm3C4ZsoJORNo=
diff --git a/pkg/trait/openclosepb/model.go b/pkg/trait/openclosepb/model.go
index 7b2e8f5..a284607 100644
--- a/pkg/trait/openclosepb/model.go
+++ b/pkg/trait/openclosepb/model.go
@@ -112,6 +112,8 @@ func (m *Model) PullPositions(ctx context.Context, ops ...resource.ReadOption) <
 	eq := cmp.Equal()
 
 	send := make(chan PullOpenClosePositionsChange)
+	// there are no seed values to send when there are no positions, but there is a value: one without positions
+	sendEmpty := !readRequest.UpdatesOnly && len(m.positions.List()) == 0
 	recv := m.positions.Pull(ctx)
 	go func() {
 		defer close(send)
@@ -119,6 +121,17 @@ func (m *Model) PullPositions(ctx context.Context, ops ...resource.ReadOption) <
 		seenAll := false
 		var last *traits.OpenClosePositions
 
+		if sendEmpty {
+			positions := &traits.OpenClosePositions{}
+			positions.Preset, _ = m.presetForValue(positions.States)
+			last = responseFilter.FilterClone(positions).(*traits.OpenClosePositions)
+			select {
+			case <-ctx.Done():
+				return
+			case send <- PullOpenClosePositionsChange{Positions: last, ChangeTime: m.positions.Clock().Now()}:
+			}
+		}
+
 		for change := range recv {
 			if change.NewValue == nil {
 				delete(all, change.Id)
-- 
2.43.0


From bfce512141b08e907d0ab341758aad4442714f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:25 +0000
Subject: [PATCH 45/46] fix: route all enter leave sensor requests

---
 pkg/trait/enterleavesensorpb/api_router.pb.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/pkg/trait/enterleavesensorpb/api_router.pb.go b/pkg/trait/enterleavesensorpb/api_router.pb.go
index 3745447..aae1c5b 100644
--- a/pkg/trait/enterleavesensorpb/api_router.pb.go
+++ b/pkg/trait/enterleavesensorpb/api_router.pb.go
@@ -137,3 +137,21 @@ func (r *ApiRouter) PullEnterLeaveEvents(request *traits.PullEnterLeaveEventsReq
 		return err
 	}
 }
+
+func (r *ApiRouter) GetEnterLeaveEvent(ctx context.Context, request *traits.GetEnterLeaveEventRequest) (*traits.EnterLeaveEvent, error) {
+	child, err := r.GetEnterLeaveSensorApiClient(request.Name)
+	if err != nil {
+		return nil, err
+	}
+
+	return child.GetEnterLeaveEvent(ctx, request)
+}
+
+func (r *ApiRouter) ResetEnterLeaveTotals(ctx context.Context, request *traits.ResetEnterLeaveTotalsRequest) (*traits.ResetEnterLeaveTotalsResponse, error) {
+	child, err := r.GetEnterLeaveSensorApiClient(request.Name)
+	if err != nil {
+		return nil, err
+	}
+
+	return child.ResetEnterLeaveTotals(ctx, request)
+}
-- 
2.43.0


From 59b68dbc6284ba6181e96f0adc4568a0f8a53b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:53 +0000
Subject: [PATCH 46/46] fix: wrapped calls that are cancelled end as cancelled

---
 pkg/wrap/stream.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/wrap/stream.go b/pkg/wrap/stream.go
index 5dc7165..20008ab 100644
--- a/pkg/wrap/stream.go
+++ b/pkg/wrap/stream.go
@@ -52,6 +52,10 @@ func (s *ClientServerStream) Close(err error) {
 		// headers that were set but not sent yet are sent along with the status
 		s.sendHeaderIfNeeded()
 	}
+	if ctxErr := s.ctx.Err(); ctxErr != nil {
+		// the call was cancelled before the server ended it, the client isn't interested in how it did
+		err = status.FromContextError(ctxErr).Err()
+	}
 	s.closeErr = err
 	close(s.serverSend)
 	s.closed()
-- 
2.43.0

