AI = "trace-partitioned abstract interpretation of the SSA form"
claim('C01', AI + ", compared with a reference register and map",
      "Every path of Get/List/Set/Add/Update/Delete is interpreted with symbolic messages, ids and callbacks, for every combination of write options and for short sequences of operations; masks are opaque (C05, C06 decide them). Bounded: sequences of 3 (thorough 4) operations over two ids, two retries of id generation.")

claim('C02', AI + " over every interleaving of 2-3 calls at lock/callback points; linearizability search over the resulting history",
      "Every path of every schedule of pairs (and chosen triples) of concurrent calls. Bounded: one operation per caller for most pairs, 2-3 callers, preemption at lock, channel and callback points.")
claim('C03', AI + " over interleavings of a subscriber and 1-2 writers; oracle folds the received events and compares with the stored state",
      "Every path and schedule with at most 2 preemptions. Bounded: up to 3 writes over two ids.")
claim('C04', AI + " of subscription and writes; oracle is the edit script the committed writes define",
      "Every path of every subscription option with sequences of writes (2-3), with and without an equivalence; symbolic messages.")
claim("C08", AI + " of filtered subscriptions with an uninterpreted predicate; oracle is the filtered reference map",
      "The predicate is an arbitrary function of id and content (each truth table is explored). Bounded: 2-3 writes, 2 preemptions; PeriodsIntersect is opaque here (C18 decides it).")
claim("C09", AI + " of writers and readers that pause at every point; oracle folds what was received",
      "Every path of up to 4-5 writes with the reader receiving 0-2 events after each; virtual time for the send timeout.")

claim("C10", AI + " over interleavings of cancellation, delivery and writers; every started goroutine must end",
      "Every path and schedule with at most 2 (thorough 3) preemptions of the bus, the resources' subscriptions and the subscriptions of every trait model (discovered from the source). Bounded: 2-4 events, 2-3 listeners.")
claim("C05", AI + " over a protoreflect model (symbolic message trees with lazily decided presence); oracle is FieldMask semantics per leaf",
      "Field updaters and every write of resources are interpreted, including fmutils, for all pairs of writable/update masks of up to 2 (some 3) paths over message shapes with every field kind. Bounded: presence varies for one leaf (and what it's part of) at a time, all others present or all absent; nesting depth 3; lists of at most 2.")
claim("C06", AI + " over a protoreflect model; oracle is an independent projection per leaf",
      "Response filters and every read of resources for all masks of up to 2 paths (valid, overlapping, unknown, continuing through scalars, lists and maps). Bounded as C05.")
claim("C16", AI + " over a protoreflect model and IEEE/time value tables; oracles are protobuf equality and exact rational arithmetic",
      "The default comparer is interpreted for every pair of messages over every field kind (scalars from a boundary table incl. NaN, presence, lists, maps, unknown fields, nil, same-named types); tolerance comparers on tables of boundary values; resources with an uninterpreted equivalence for sequences of 3 (4) writes. Bounded: one or two fields of each kind per message, lists/maps of at most 2; differences within floating point rounding of the tolerance are not judged.")
claim("C17", AI + " of every strategy with gated members; oracle is the strategy's contract on the completion order",
      "Execute, ExecuteOne/Fast/Race and the device groups (discovered) for 0-3 (thorough 4) members, every outcome assignment and completion order, members that do or don't stop when cancelled, simultaneous completions with up to 2 preemptions, the caller cancelled. Group Pull streams with 2 members. How a group's values are combined into one is not part of the property.")
claim("C18", AI + " over tables of order-type-complete boundary values; oracles are sums and integrals over exact integers",
      "Period/cut relations over every pair of periods whose endpoints are drawn from an order-complete table (unbounded, 0..3 (thorough 0..5), with nanosecond offsets and extremes); timestamp arithmetic on 36x36 values; segment functions on lists of up to 3 (thorough 4) segments with magnitudes {-2,0,1,3}, lengths {0,1,3} and infinite last segments, sampled at every boundary and midpoint; modes with and without a start time.")
claim("C19", AI + " over known messages; oracle is a reference machine of modes",
      "Every operation (with and without masks, as model method and as RPC) from every start state over two modes (absent, plain, normal) and every active mode, followed by a second operation; all sequences of 3 (thorough 4) of a smaller set; all pairs of racing operations with 1 (thorough 2) preemptions at lock and channel points, final state and results explained by an order.")
claim("C20", AI + " over known messages; oracles are small executable specifications per model (set algebra, exact unit arithmetic, lookup tables, counters, content-to-version map)",
      "Parent: every pair (thorough triple) of multi-trait additions/removals from 6 start states, racing pairs with 2 preemptions; every pair of units and quantity over every subset of used/remaining; every fan-speed update (mask, relative, as RPC) for 5 preset lists after a setup step; every relative mode step incl. int32 extremes; sequences of 2-3 enter/leave, meter and publication operations; every WithInitial* option (discovered) of every model.")
claim("C15", AI + " of the servers following page tokens over known items; base64 and the wire format are computed from what the code passes; oracle is the sorted list of items",
      "Every paged List of every ModelServer (enumerated by request type): 0-5 (thorough 0-8) items from 3 key sets with every sequence of up to 3 page sizes and read masks with and without the key; 49/50/51/101/1001 (thorough 999-2001) items around the default and maximum; malformed, foreign and out-of-range tokens and negative sizes.")
claim("C13", AI + "every pair of scripts of a server and a client (four call shapes and unary calls made as streams; messages, headers, trailers, half-close, every end at every position, cancellation and deadlines by either side at every position) is run through the source of the wrapper with every choice of its selects, and compared with a reference machine of gRPC's rules; transcripts of both sides, metadata, the context of the server, copies of nested messages and of messages with other descriptors, goroutines left behind; unknown methods and mismatched shapes; schedules with preemptions.", "Up to 2 messages per direction (thorough: 4, every script with a preemption). The reference machine was compared with grpc-go over bufconn, by hand, when it was written; grpc-go itself isn't analysed. Scripts that rely on buffers or wait for each other over gRPC are left out.")
claim("C14", AI + " of every server with Get, Update and Pull RPCs (discovered) over known messages; oracle is one register: responses, reads, projections and streams compared",
      "17 registers: every sampled value x every single-path mask (top-level, nested, pairs, unknown) x request flag, then a second update; streams opened before, between and after, plain, updates-only and masked, of the item and of its collection. Racing updates with 1 (thorough 2) preemptions. The wrapper and router around the servers are decided by C12 and C13; time-driven changes (tweens) aren't advanced.")
claim("C12", AI + "every history of three (thorough: four) registry operations with every kind of fallback and factory against a map, every interleaving of two and three concurrent operations; every method of every service through its router with scripted clients (responses, errors, headers, trailers, callers that go away); every wrapper; the default name interceptors; the generators are interpreted with the descriptors of the API and what they produce is compared with what's checked in, files that differ have to satisfy the same rules.", "Registries of two names. The generators are only run on the services of the API the module is built with, code that protogen itself adds is trusted.")
claim("C07", AI + "; everything handed in or out is remembered with its rendering, scribbled on or re-read after every further operation; masks over a protoreflect model with ownership of every part",
      "Value and Collection with every combination of write, read and subscribe options; every method of every trait model and of the servers in front of them (discovered; 27 models, 22 servers) on rich messages, with read and update masks. Bounded: sequences of 2 (thorough partly 3) writes between reads and subscriptions, sequential; cloned and appended slices have spare capacity so that in-place appends show.")
