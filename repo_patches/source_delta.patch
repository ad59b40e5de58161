From bd3427642dfd249f893f2be67a0959f9afd2f4b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:52 +0000
Subject: [PATCH 01/21] fix: filter tickets without attributes instead of
 panicking

A ticket found in state storage can lack the attributes message; any string or
double filter then dereferenced a nil pointer and took the server down.
---
 core/internal/filter/filter.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/core/internal/filter/filter.go b/core/internal/filter/filter.go
index c30ebb0..e8896a0 100644
--- a/core/internal/filter/filter.go
+++ b/core/internal/filter/filter.go
@@ -85,8 +85,8 @@ func In(pool *pb.Pool, ticket *pb.Ticket) bool {
 		}
 	}
 
-	for _, filter := range pool.DoubleRangeFilters {
-		v, ok := filterableFields.DoubleArgs[filter.GetDoubleArg()]
+	for _, filter := range pool.GetDoubleRangeFilters() {
+		v, ok := filterableFields.GetDoubleArgs()[filter.GetDoubleArg()]
 		if !ok {
 			return false
 		}
@@ -112,8 +112,8 @@ func In(pool *pb.Pool, ticket *pb.Ticket) bool {
 
 	}
 
-	for _, f := range pool.StringEqualsFilters {
-		v, ok := filterableFields.StringArgs[f.GetStringArg()]
+	for _, f := range pool.GetStringEqualsFilters() {
+		v, ok := filterableFields.GetStringArgs()[f.GetStringArg()]
 		if !ok {
 			return false
 		}
@@ -124,7 +124,7 @@ func In(pool *pb.Pool, ticket *pb.Ticket) bool {
 
 	ticketTags := filterableFields.GetTags()
 tagFilterTest:
-	for _, f := range pool.TagPresentFilters {
+	for _, f := range pool.GetTagPresentFilters() {
 		for _, v := range ticketTags {
 			if v == f.GetTag() {
 				continue tagFilterTest
-- 
2.43.0


From cd12abeedfe18caf5b8b26f5f29fda985baca95b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:06 +0000
Subject: [PATCH 02/21] fix: never offer tickets created while an invocation
 snapshots the cache

The inactive set was copied before the tickets were read, so a ticket created in
between was not in the copy and ended up in pools without ever being activated.
---
 core/main.go | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/core/main.go b/core/main.go
index f603ef2..5c7e778 100644
--- a/core/main.go
+++ b/core/main.go
@@ -945,14 +945,22 @@ func syncMapDump(sm *sync.Map) map[string]interface{} {
 // two sets, as they are still being updated asynchronously in a number of
 // other goroutines. The rest of the design of OM takes this into account.
 func setDifference(tix *sync.Map, inactiveSet *sync.Map) (activeTickets []any) {
-	inactiveTicketIds := syncMapDump(inactiveSet)
-	// Copy the ticket cache, leaving out inactive tickets.
+	// Copy the ticket cache, leaving out inactive tickets. Each ticket is
+	// looked up in the inactive set as it is found: a new ticket is always put
+	// in the inactive set before it is put in the ticket cache, so looking at a
+	// copy of the inactive set made earlier would let through tickets that
+	// were created since.
 	tix.Range(func(id, ticket any) bool {
-		// not ok means an error was encountered, indicating this
-		// ticket is NOT inactive (meaning it IS active)
-		if _, ok := inactiveTicketIds[id.(string)]; !ok {
-			activeTickets = append(activeTickets, ticket)
+		if _, inactive := inactiveSet.Load(id); inactive {
+			return true
+		}
+		// An expired ticket is removed from the ticket cache before it is
+		// removed from the inactive set; make sure this one wasn't just removed
+		// from both.
+		if _, exists := tix.Load(id); !exists {
+			return true
 		}
+		activeTickets = append(activeTickets, ticket)
 		return true
 	})
 	return
-- 
2.43.0


From c72dbefe1fab00ea2a0100d3074cb4d274257530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:10 +0000
Subject: [PATCH 03/21] fix: send whole pool definitions to match functions and
 keep chunks below the limit

Pools reached the match functions without their name, filters and extensions, pools
without participants not at all, and the size accounting ignored the framing of each
ticket, so chunks with very many small tickets exceeded the gRPC message limit.
---
 core/main.go | 97 ++++++++++++++++++++++++++--------------------------
 1 file changed, 49 insertions(+), 48 deletions(-)

diff --git a/core/main.go b/core/main.go
index 5c7e778..c5972a3 100644
--- a/core/main.go
+++ b/core/main.go
@@ -37,6 +37,7 @@ import (
 	"google.golang.org/grpc/codes"
 	"google.golang.org/grpc/credentials/insecure"
 	"google.golang.org/grpc/status"
+	"google.golang.org/protobuf/encoding/protowire"
 	"google.golang.org/protobuf/proto"
 	"google.golang.org/protobuf/types/known/timestamppb"
 
@@ -396,14 +397,35 @@ func (s *grpcServer) InvokeMatchmakingFunctions(req *pb.MmfRequest, stream pb.Op
 		len(activeTickets), len(unassignedTickets))
 	logger.Debugf("Ticket cache contains %v active tickets to filter into pools", len(activeTickets))
 
-	// validate pool filters before filling them
-	validPools := map[string][]*pb.Ticket{}
+	// Validate pool filters before filling them. Every chunk carries the
+	// complete definition of all valid pools, whether or not it has tickets for
+	// them.
+	validPools := []string{}
+	newChunk := func() *pb.ChunkedMmfRunRequest {
+		profile := &pb.Profile{
+			Name:       req.GetProfile().GetName(),
+			Pools:      make(map[string]*pb.Pool, len(validPools)),
+			Extensions: req.GetProfile().GetExtensions(),
+		}
+		for _, name := range validPools {
+			pool := req.GetProfile().GetPools()[name]
+			profile.Pools[name] = &pb.Pool{
+				Name:                    pool.GetName(),
+				TagPresentFilters:       pool.GetTagPresentFilters(),
+				StringEqualsFilters:     pool.GetStringEqualsFilters(),
+				DoubleRangeFilters:      pool.GetDoubleRangeFilters(),
+				CreationTimeRangeFilter: pool.GetCreationTimeRangeFilter(),
+				Extensions:              pool.GetExtensions(),
+				Participants:            &pb.Roster{Name: name + "_roster"},
+			}
+		}
+		return &pb.ChunkedMmfRunRequest{Profile: profile, NumChunks: math.MaxInt32}
+	}
 	for name, pool := range req.GetProfile().GetPools() {
 		if valid, err := filter.ValidatePoolFilters(pool); valid {
-			// Initialize a clean roster for this pool
-			validPools[name] = make([]*pb.Ticket, 0)
+			validPools = append(validPools, name)
 		} else {
-			logger.Error("Unable to fill pool with tickets, invalid: %w", err)
+			logger.Errorf("Unable to fill pool with tickets, invalid: %v", err)
 		}
 	}
 	logger.Debugf("Tickets filtered into %v pools", len(validPools))
@@ -412,64 +434,43 @@ func (s *grpcServer) InvokeMatchmakingFunctions(req *pb.MmfRequest, stream pb.Op
 	// (4mb is default max pb size.)
 	// 1000 instead of 1024 for a little extra headroom, we're not trying to hyper-optimize here
 	// Every chunk contains the entire profile, and a portion of the tickets in that profile's pools.
+	// MMFs need to re-assemble the pools with a simple loop+concat over all chunks
+	// This could probably be optimized so we don't repeatedly send profile
+	// details in larger payloads, but this implementation is 1) simpler and 2)
+	// could still be useful to the receiving MMF if it somehow only got part of
+	// the chunked request.
 	maxPbSize := 4 * 1000 * 1000
-	// Figure out how big the message is with the profile populated, but all pools empty
-	emptyChunkSize := proto.Size(&pb.ChunkedMmfRunRequest{Profile: req.GetProfile(), NumChunks: math.MaxInt32})
+	chunk := newChunk()
+	chunkedRequest := []*pb.ChunkedMmfRunRequest{chunk}
+	// Figure out how big the message is with the profile populated, but all
+	// pools empty. The length prefixes around a pool's tickets take a few more
+	// bytes when there are many tickets.
+	emptyChunkSize := proto.Size(chunk) + 16*len(validPools)
 	curChunkSize := emptyChunkSize
 
-	// Array of 'chunks', each consisting of a portion of the pools in this profile.
-	// MMFs need to re-assemble the pools with a simple loop+concat over all chunks
-	var chunkCount int32
-	chunkedPools := make([]map[string][]*pb.Ticket, 0)
-	chunkedPools = append(chunkedPools, map[string][]*pb.Ticket{})
-
 	for _, ticket := range activeTickets {
-		for name, _ := range validPools {
+		for _, name := range validPools {
 			// All the implementation details of filtering are in internal/filter/filter.go
 			if filter.In(req.GetProfile().GetPools()[name], ticket.(*pb.Ticket)) {
-				ticketSize := proto.Size(ticket.(*pb.Ticket))
+				// Every ticket is preceded by a one-byte field tag and its length.
+				ticketSize := 1 + protowire.SizeBytes(proto.Size(ticket.(*pb.Ticket)))
 				// Check if this ticket will put us over the max pb size for this chunk
-				if (curChunkSize + ticketSize) >= maxPbSize {
+				if curChunkSize > emptyChunkSize && (curChunkSize+ticketSize) >= maxPbSize {
 					// Start a new chunk
 					curChunkSize = emptyChunkSize
-					chunkCount++
-					chunkedPools = append(chunkedPools, map[string][]*pb.Ticket{})
+					chunk = newChunk()
+					chunkedRequest = append(chunkedRequest, chunk)
 				}
-				chunkedPools[chunkCount][name] = append(chunkedPools[chunkCount][name], ticket.(*pb.Ticket))
+				participants := chunk.GetProfile().GetPools()[name].GetParticipants()
+				participants.Tickets = append(participants.Tickets, ticket.(*pb.Ticket))
 				curChunkSize += ticketSize
 			}
 		}
 	}
-	logger.Debugf("%v pools split into %v chunks", len(validPools), len(chunkedPools))
-
-	// put final participant rosters into the pools.
-	// Send the full profile in each streamed 'chunk', only the pools are broken
-	// up to keep the pbs under the max size. This could probably be optimized
-	// so we don't repeatedly send profile details in larger payloads, but this
-	// implementation is 1) simpler and 2) could still be useful to the receiving
-	// MMF if it somehow only got part of the chunked request.
-	chunkedRequest := make([]*pb.ChunkedMmfRunRequest, len(chunkedPools))
-	for chunkIndex, chunk := range chunkedPools {
-		// Fill this request 'chunk' with the chunked pools we built above
-		pools := make(map[string]*pb.Pool)
-		profile := &pb.Profile{
-			Name:       req.GetProfile().GetName(),
-			Pools:      pools,
-			Extensions: req.GetProfile().GetExtensions(),
-		}
-		for name, participantRoster := range chunk {
-			profile.GetPools()[name] = &pb.Pool{
-				Participants: &pb.Roster{
-					Name:    name + "_roster",
-					Tickets: participantRoster,
-				},
-			}
-		}
-		chunkedRequest[chunkIndex] = &pb.ChunkedMmfRunRequest{
-			Profile:   profile,
-			NumChunks: int32(len(chunkedPools)),
-		}
+	for _, chunk := range chunkedRequest {
+		chunk.NumChunks = int32(len(chunkedRequest))
 	}
+	logger.Debugf("%v pools split into %v chunks", len(validPools), len(chunkedRequest))
 
 	// MMF Result fan-in goroutine
 	// Simple fan-in channel pattern implemented as an async inline goroutine.
-- 
2.43.0


From df313ad5e0120658983c56a345173e9f97f719ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:32 +0000
Subject: [PATCH 04/21] fix: relay the matches of failing match functions and
 the last match of every invocation

When a match function failed, the invocation did not wait for the goroutines that
process its earlier matches: they sent on the match channel after it was closed (a
panic). And the handler returned without waiting for the goroutine that writes to the
stream, which lost the last match now and then.
---
 core/main.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/core/main.go b/core/main.go
index c5972a3..ed2278f 100644
--- a/core/main.go
+++ b/core/main.go
@@ -482,8 +482,11 @@ func (s *grpcServer) InvokeMatchmakingFunctions(req *pb.MmfRequest, stream pb.Op
 	matchChan := make(chan *pb.Match)
 	// Channel that receives a bool flag when all MMFs have closed their streams.
 	waitChan := make(chan bool)
+	// Channel that is closed when the last match was handed to the stream.
+	fanInDone := make(chan struct{})
 	var mmfwg sync.WaitGroup
 	go func() {
+		defer close(fanInDone)
 		logger.Debug("MMF results fan-in goroutine active")
 		for {
 			select {
@@ -583,6 +586,9 @@ func (s *grpcServer) InvokeMatchmakingFunctions(req *pb.MmfRequest, stream pb.Op
 				// deactivations are complete. (All tickets in matches returned
 				// by the MMF are set to inactive by OM)
 				var tdwg sync.WaitGroup
+				// Also when the MMF fails: matches it sent before that are
+				// still being processed, and use the match channel.
+				defer tdwg.Wait()
 
 				// i counts the number of loops for metrics reporting; this
 				// loop reads streaming match responses from the mmf and runs
@@ -699,9 +705,6 @@ func (s *grpcServer) InvokeMatchmakingFunctions(req *pb.MmfRequest, stream pb.Op
 				// problems too, but it's a relatively low-risk assumption that
 				// the user will only deploy a few different mmfs.
 				Matches.Add(ctx, i, metric.WithAttributes(attribute.String("mmf.name", mmf.GetName())))
-
-				// Wait for all match ticket deactivation goroutines to complete.
-				tdwg.Wait()
 			}
 
 			// io.EOF indicates the MMF server closed the stream (mmf is
@@ -721,6 +724,8 @@ func (s *grpcServer) InvokeMatchmakingFunctions(req *pb.MmfRequest, stream pb.Op
 	mmfwg.Wait()
 	logger.Debugf("MMF waitgroup done; closing waitchan")
 	close(waitChan)
+	// The stream must not be used any more after this handler has returned.
+	<-fanInDone
 	return nil
 }
 
-- 
2.43.0


From 7a40fd18c1dc547297f5dd69ed9a204099abad0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:36 +0000
Subject: [PATCH 05/21] fix: end the request stream to a match function after
 the last chunk

---
 core/main.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/main.go b/core/main.go
index ed2278f..5f9526a 100644
--- a/core/main.go
+++ b/core/main.go
@@ -581,6 +581,8 @@ func (s *grpcServer) InvokeMatchmakingFunctions(req *pb.MmfRequest, stream pb.Op
 					mmfStream.Send(chunk)
 					logger.Debugf("MMF request chunk %02d/%02d: %0.2fmb", index+1, len(chunkedRequest), float64(proto.Size(chunk))/float64(1024*1024))
 				}
+				// That was the whole request: end the request stream.
+				mmfStream.CloseSend()
 
 				// Make a waitgroup that lets us know when all ticket
 				// deactivations are complete. (All tickets in matches returned
-- 
2.43.0


From a871de72de9cfd61f14686dc57ce1ffed692c43c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:39 +0000
Subject: [PATCH 06/21] fix: count exactly the matches received from match
 functions

The counter was one too high for every match function, and matches of functions that
failed later were not counted at all.
---
 core/main.go | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/core/main.go b/core/main.go
index 5f9526a..9923f7b 100644
--- a/core/main.go
+++ b/core/main.go
@@ -592,11 +592,9 @@ func (s *grpcServer) InvokeMatchmakingFunctions(req *pb.MmfRequest, stream pb.Op
 				// still being processed, and use the match channel.
 				defer tdwg.Wait()
 
-				// i counts the number of loops for metrics reporting; this
-				// loop reads streaming match responses from the mmf and runs
-				// until a break statement is encountered.
-				var i int64
-				for i = 1; true; i++ {
+				// This loop reads streaming match responses from the mmf and
+				// runs until a break statement is encountered.
+				for {
 					// Get results from MMF
 					var result *pb.StreamedMmfResponse
 					result, err = mmfStream.Recv()
@@ -611,6 +609,14 @@ func (s *grpcServer) InvokeMatchmakingFunctions(req *pb.MmfRequest, stream pb.Op
 						return status.Error(codes.Internal, fmt.Errorf("Unable to invoke MMF '%v' at %v: %w", mmf.GetName(), mmfHost, err).Error())
 					}
 
+					// TODO decide if we want to track profile names as attributes
+					// as well as mmf names. Profile names are user input, so we'd
+					// have to limit cardinality somehow. Really we should address
+					// the possiblity of too many mmf names causing cardinality
+					// problems too, but it's a relatively low-risk assumption that
+					// the user will only deploy a few different mmfs.
+					Matches.Add(ctx, 1, metric.WithAttributes(attribute.String("mmf.name", mmf.GetName())))
+
 					// deactivate tickets & send match back to the matchmaker
 					// asynchronously as streamed match results continue to be
 					// processed.
@@ -700,13 +706,6 @@ func (s *grpcServer) InvokeMatchmakingFunctions(req *pb.MmfRequest, stream pb.Op
 
 				} // End of match stream receiving loop
 
-				// TODO decide if we want to track profile names as attributes
-				// as well as mmf names. Profile names are user input, so we'd
-				// have to limit cardinality somehow. Really we should address
-				// the possiblity of too many mmf names causing cardinality
-				// problems too, but it's a relatively low-risk assumption that
-				// the user will only deploy a few different mmfs.
-				Matches.Add(ctx, i, metric.WithAttributes(attribute.String("mmf.name", mmf.GetName())))
 			}
 
 			// io.EOF indicates the MMF server closed the stream (mmf is
-- 
2.43.0


From 09dd37706b5e7c126c8a10e1f1460022ec8b1e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:28 +0000
Subject: [PATCH 07/21] fix: wait until all tickets of a match are inactive,
 and survive matches without tickets

The check for completed deactivations looked once, after 100 ms, at the last ticket of
the match only, so with any replication delay the match was returned (or the invocation
ended) while its tickets were still active. A match without tickets made it panic.
Updates now carry their replication id, and the wait is for the last one to be applied.
---
 .../statestore/cache/replicatedticketcache.go | 25 ++++++++
 core/internal/statestore/datatypes/store.go   |  7 ++-
 core/internal/statestore/memory/main.go       |  1 +
 core/internal/statestore/redis/redis.go       |  2 +-
 core/main.go                                  | 57 +++++++++++--------
 5 files changed, 63 insertions(+), 29 deletions(-)

diff --git a/core/internal/statestore/cache/replicatedticketcache.go b/core/internal/statestore/cache/replicatedticketcache.go
index be18da2..2f12edf 100644
--- a/core/internal/statestore/cache/replicatedticketcache.go
+++ b/core/internal/statestore/cache/replicatedticketcache.go
@@ -7,6 +7,7 @@ import (
 	"strconv"
 	"strings"
 	"sync"
+	"sync/atomic"
 	"time"
 
 	"google.golang.org/protobuf/proto"
@@ -60,10 +61,33 @@ type ReplicatedTicketCache struct {
 	// The queue of cache updates
 	UpRequests chan *UpdateRequest
 
+	// Replication id of the last update that was applied to the local copies.
+	lastReplId atomic.Value
+
 	// Application config
 	Cfg *viper.Viper
 }
 
+// Applied returns true if the update with the given replication id, and hence
+// all those before it, have been applied to this cache.
+func (tc *ReplicatedTicketCache) Applied(replId string) bool {
+	last, ok := tc.lastReplId.Load().(string)
+	if !ok {
+		return false
+	}
+	lastTime, lastSeq := parseReplId(last)
+	time, seq := parseReplId(replId)
+	return lastTime > time || (lastTime == time && lastSeq >= seq)
+}
+
+// parseReplId splits a replication id (<unix_timestamp>-<index>) into its parts.
+func parseReplId(id string) (timestamp, index uint64) {
+	t, i, _ := strings.Cut(id, "-")
+	timestamp, _ = strconv.ParseUint(t, 10, 64)
+	index, _ = strconv.ParseUint(i, 10, 64)
+	return
+}
+
 // outgoingReplicationQueue is an asynchronous goroutine that runs for the
 // lifetime of the server.  It processes incoming repliation events that are
 // produced by gRPC handlers, and sends those events to the configured state
@@ -216,6 +240,7 @@ func (tc *ReplicatedTicketCache) IncomingReplicationQueue(ctx context.Context) {
 					tc.Assignments.Store(curUpdate.Key, assignmentPb)
 					logger.Debugf("**DEPRECATED** assign replication received %v:%v", curUpdate.Key, assignmentPb.GetConnection())
 				}
+				tc.lastReplId.Store(curUpdate.ReplId)
 			case <-updateTimeout:
 				// Lock hold timeout exceeded
 				logger.Debug("lock hold timeout")
diff --git a/core/internal/statestore/datatypes/store.go b/core/internal/statestore/datatypes/store.go
index 58dbfdc..ce7e666 100644
--- a/core/internal/statestore/datatypes/store.go
+++ b/core/internal/statestore/datatypes/store.go
@@ -11,9 +11,10 @@ const (
 
 // Every change to the state of the tickets in om-core is modelled as a StateUpdate.
 type StateUpdate struct {
-	Cmd   int    // The operation this update contains
-	Key   string // The key to update
-	Value string // The value to associate with this key (if applicable)
+	Cmd    int    // The operation this update contains
+	Key    string // The key to update
+	Value  string // The value to associate with this key (if applicable)
+	ReplId string // The replication id of this update (only set in updates read from state storage)
 }
 
 // Results of changes to the state of the cache. State replication batches
diff --git a/core/internal/statestore/memory/main.go b/core/internal/statestore/memory/main.go
index 4909021..cda8276 100644
--- a/core/internal/statestore/memory/main.go
+++ b/core/internal/statestore/memory/main.go
@@ -85,6 +85,7 @@ func (rc *memoryReplicator) SendUpdates(updates []*store.StateUpdate) []*store.S
 		if up.Cmd == store.Ticket {
 			up.Key = replId
 		}
+		up.ReplId = replId
 		rc.replChan <- up
 		out = append(out, &store.StateResponse{Result: replId, Err: nil})
 	}
diff --git a/core/internal/statestore/redis/redis.go b/core/internal/statestore/redis/redis.go
index eacd97d..14a4e70 100644
--- a/core/internal/statestore/redis/redis.go
+++ b/core/internal/statestore/redis/redis.go
@@ -272,7 +272,7 @@ func (rr *redisReplicator) GetUpdates() []*store.StateUpdate {
 				if err != nil {
 					logger.Error(err)
 				}
-				thisUpdate := &store.StateUpdate{}
+				thisUpdate := &store.StateUpdate{ReplId: replId}
 				//fmt.Println(replId)
 
 				// Update type/key/value data
diff --git a/core/main.go b/core/main.go
index 9923f7b..7a50e9e 100644
--- a/core/main.go
+++ b/core/main.go
@@ -224,17 +224,20 @@ func (s *grpcServer) CreateTicket(parentCtx context.Context, req *pb.CreateTicke
 }
 
 // updateTicketsActiveState accepts a list of ticketids to (de-)activate, and
-// generates cache updates for each.
+// generates cache updates for each. It returns the replication id of the last
+// update that was stored (empty if there was none), which can be used to
+// determine if all of the updates have been applied to a given om-core
+// instance, and the errors of those that weren't.
 //
 // NOTE This function does no input validation, that responsibility falls on the
 // calling function.
-func updateTicketsActiveState(parentCtx context.Context, ticketIds []string, command int) map[string]error {
+func updateTicketsActiveState(parentCtx context.Context, ticketIds []string, command int) (lastReplId string, errs map[string]error) {
 	logger := logger.WithFields(logrus.Fields{
 		"stage": "handling",
 		"rpc":   "updateTicketsActiveState",
 	})
 
-	errs := map[string]error{}
+	errs = map[string]error{}
 
 	rChan := make(chan *store.StateResponse, len(ticketIds))
 	defer close(rChan)
@@ -279,9 +282,11 @@ func updateTicketsActiveState(parentCtx context.Context, ticketIds []string, com
 			// The results.result field contains the ticket id that generated the error.
 			errs[results.Result] = fmt.Errorf("Unable to update ticket %v state to %v : %w", ticketIds[i], requestedStateAsString, results.Err)
 			logger.Error(errs[results.Result])
+		} else {
+			lastReplId = results.Result
 		}
 	}
-	return errs
+	return lastReplId, errs
 }
 
 // ActivateTickets accepts a list of ticketids to activate, validates the
@@ -307,7 +312,7 @@ func (s *grpcServer) ActivateTickets(parentCtx context.Context, req *pb.Activate
 	// Send the ticket activation updates. Returns the last Replication ID of
 	// the batch. Can be used to determine if all of these activations have
 	// been applied to a given om-core instance.
-	errs := updateTicketsActiveState(parentCtx, validTicketIds, store.Activate)
+	_, errs := updateTicketsActiveState(parentCtx, validTicketIds, store.Activate)
 
 	// Add activation failures to the error details
 	_ = invalidTicketIds
@@ -341,7 +346,7 @@ func (s *grpcServer) DeactivateTickets(parentCtx context.Context, req *pb.Deacti
 	// Send the ticket deactivation updates. Returns the last Replication ID of
 	// the batch. Can be used to determine if all of these activations have
 	// been applied to a given om-core instance.
-	errs := updateTicketsActiveState(parentCtx, validTicketIds, store.Deactivate)
+	_, errs := updateTicketsActiveState(parentCtx, validTicketIds, store.Deactivate)
 
 	// Add deactivation failures to the error details
 	_ = invalidTicketIds
@@ -651,40 +656,42 @@ func (s *grpcServer) InvokeMatchmakingFunctions(req *pb.MmfRequest, stream pb.Op
 
 						// Kick off deactivation
 						logger.Debugf("deactivating tickets in %v", res.GetId())
-						errs := updateTicketsActiveState(ctx, ticketIdsToDeactivate, store.Deactivate)
+						lastReplId, errs := updateTicketsActiveState(ctx, ticketIdsToDeactivate, store.Deactivate)
 						if len(errs) > 0 {
-							logger.Errorf("Error deactivating match %v tickets: %v", res.GetId(), err)
+							logger.Errorf("Error deactivating match %v tickets: %v", res.GetId(), errs)
 						}
 						logger.Debugf("Done deactivating tickets in %v", res.GetId())
 
-						// Function to check if deactivation of the last ticket
-						// in this match's rosters has been replicated to the
-						// local cache
-						deactivationCheck := func(ticketId string) {
+						// Function to wait until the last deactivation of the
+						// tickets in this match's rosters has been replicated
+						// to the local cache. Updates are applied in order, so
+						// all the others have been replicated then as well.
+						deactivationCheck := func() {
+							if lastReplId == "" {
+								// Nothing to deactivate.
+								return
+							}
 							// We'd never expect the deactivation to take this
 							// long to replicate, but best practices require
 							// /some/ timeout.
 							timeout := time.After(time.Second * 60)
-							select {
-							case <-timeout:
-								// Log the timeout and continue.
-								logger.Errorf("Timeout while waiting for ticket %v deactivation to be replicated to local cache", ticketId)
-								return
-							default:
-								// There is always /some/ replication delay,
-								// sleep first
-								time.Sleep(100 * time.Millisecond)
-								if _, replComplete := tc.InactiveSet.Load(ticketId); replComplete == true {
-									logger.Debugf("deactivation of ticket %v replicated to local cache", ticketId)
+							for !tc.Applied(lastReplId) {
+								select {
+								case <-timeout:
+									// Log the timeout and continue.
+									logger.Errorf("Timeout while waiting for ticket deactivations of match %v to be replicated to local cache", res.GetId())
 									return
+								case <-time.After(5 * time.Millisecond):
+									// There is always /some/ replication delay.
 								}
 							}
+							logger.Debugf("ticket deactivations of match %v replicated to local cache", res.GetId())
 						}
 
 						// Option 1: Wait for deactivation to complete BEFORE
 						// returning the match.
 						if cfg.GetBool("OM_MATCH_TICKET_DEACTIVATION_WAIT") {
-							deactivationCheck(ticketIdsToDeactivate[len(ticketIdsToDeactivate)-1])
+							deactivationCheck()
 							logger.Debug("ticket deactivations complete, returning match")
 						}
 
@@ -698,7 +705,7 @@ func (s *grpcServer) InvokeMatchmakingFunctions(req *pb.MmfRequest, stream pb.Op
 						// Option 2: Match already returned; clean up
 						// goroutine when deactivation is complete.
 						if !cfg.GetBool("OM_MATCH_TICKET_DEACTIVATION_WAIT") {
-							deactivationCheck(ticketIdsToDeactivate[len(ticketIdsToDeactivate)-1])
+							deactivationCheck()
 							logger.Debug("ticket deactivations complete for previously returned match")
 						}
 						return
-- 
2.43.0


From 7a9d9c269be6b6c82bbdf3e18ab585da3a2a448b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:26 +0000
Subject: [PATCH 08/21] fix: report the outcome of each state update to its own
 caller, and reuse redis connections

Replies were matched to updates by position even when updates were refused
before being sent, a failed pipeline was reported as success, results of
failed updates did not name their key, and connections were never returned to
the pool.
---
 core/internal/statestore/redis/redis.go | 61 ++++++++++++++-----------
 1 file changed, 35 insertions(+), 26 deletions(-)

diff --git a/core/internal/statestore/redis/redis.go b/core/internal/statestore/redis/redis.go
index 14a4e70..df802cf 100644
--- a/core/internal/statestore/redis/redis.go
+++ b/core/internal/statestore/redis/redis.go
@@ -104,14 +104,20 @@ func (rr *redisReplicator) SendUpdates(updates []*store.StateUpdate) []*store.St
 		"component": "redisReplicator.sendUpdates",
 	})
 
-	var err error
 	rConn := rr.wConnPool.Get()
+	defer rConn.Close() // Return the connection to the pool.
 	const redisCmd = "XADD"
 	out := make([]*store.StateResponse, len(updates))
 
+	// Indices of the updates which were actually sent to redis; updates which
+	// fail validation are never sent, so they have no reply.
+	sent := make([]int, 0, len(updates))
+
 	// Process all the requested redis commands
 	for i, update := range updates {
-		out[i] = &store.StateResponse{Result: "", Err: nil}
+		// Until the update succeeds, the result is the key of the update, so that
+		// the caller can tell which update generated an error.
+		out[i] = &store.StateResponse{Result: update.Key, Err: nil}
 		redisArgs := make([]interface{}, 0)
 		redisArgs = append(redisArgs, "om-replication", "*")
 		switch update.Cmd {
@@ -170,49 +176,51 @@ func (rr *redisReplicator) SendUpdates(updates []*store.StateUpdate) []*store.St
 		// TrimPrefix/Suffix calls when logging the command.
 		logger.Debugf("Executing redis command: %v %v", redisCmd,
 			strings.TrimPrefix(strings.TrimSuffix(fmt.Sprint(redisArgs), "]"), "["))
-		err = rConn.Send(redisCmd, redisArgs...)
+		err := rConn.Send(redisCmd, redisArgs...)
 		if err != nil {
 			logger.Errorf("Redis error: %v", err)
+			out[i].Err = fmt.Errorf("Redis error: %w", err)
+			continue
 		}
+		sent = append(sent, i)
 	}
 
 	// Append command to remove expired entries
 	expirationThresh := strconv.FormatInt(time.Now().Unix()-rr.cfg.GetInt64("OM_CACHE_TICKET_TTL_SECS"), 10)
 	logger.Debugf("Executing redis command: XTRIM om-replication MINID %v", expirationThresh)
-	err = rConn.Send("XTRIM", "om-replication", "MINID", expirationThresh)
+	err := rConn.Send("XTRIM", "om-replication", "MINID", expirationThresh)
 	if err != nil {
 		logger.Errorf("Redis error: %v", err)
 	}
 
 	// Send pipelined commands, get results
-	r, err := rConn.Do("")
+	replies, err := redis.Values(rConn.Do(""))
+	if err == nil && len(replies) < len(sent) {
+		err = fmt.Errorf("expected %v replies, got %v", len(sent), len(replies))
+	}
 	if err != nil {
+		// No way to know which of the updates (if any) redis processed, so
+		// report all those that were sent as failed.
 		logger.Errorf("Do error: %v", err)
+		for _, i := range sent {
+			out[i].Err = fmt.Errorf("Redis error: %w", err)
+		}
+		return out
 	}
 
-	// Last command we sent was the XTRIM above, so read all results but that final one into
-	// the array of strings to return from this function
-	if r != nil { // Make sure we have results before we parse them
-		for index := 0; index < len(r.([]interface{}))-1; index++ {
-			// First, make sure this was a valid update
-			if out[index].Err == nil {
-				t, err := redis.String(r.([]interface{})[index], err)
-				if err != nil {
-					out[index].Err = fmt.Errorf("Redis output string conversion error: %w", err)
-					t = ""
-				}
-				out[index].Result = t
-				fmt.Printf(" %v - found string: %v\n", index, t)
-			} else {
-				// Error, the update didn't have all the required fields so it was never sent to redis.
-				// Return the error code, and the result is the key that generated the error.
-				fmt.Printf(" %v - had error\n", index)
-				out[index].Result = updates[index].Key
-			}
+	// Replies are in the order the updates were sent.
+	for r, i := range sent {
+		t, err := redis.String(replies[r], nil)
+		if err != nil {
+			out[i].Err = fmt.Errorf("Redis output string conversion error: %w", err)
+			continue
 		}
+		out[i].Result = t
+	}
 
-		// Last result from redis is a count of number of entries we removed with the XTRIM command.
-		expiredCount, err := redis.Int64(r.([]interface{})[len(r.([]interface{}))-1], err)
+	// Last result from redis is a count of number of entries we removed with the XTRIM command.
+	if len(replies) > len(sent) {
+		expiredCount, err := redis.Int64(replies[len(sent)], nil)
 		if err != nil {
 			logger.Errorf("Redis output int64 conversion error: %v", err)
 		}
@@ -252,6 +260,7 @@ func (rr *redisReplicator) GetUpdates() []*store.StateUpdate {
 	logger.Debugf("Executing redis command: %v %v", redisCmd, redisArgs)
 
 	rConn := rr.rConnPool.Get()
+	defer rConn.Close() // Return the connection to the pool.
 	data, err := rConn.Do(redisCmd, redisArgs...)
 	if err != nil {
 		logger.Errorf("Redis error: %v", err)
-- 
2.43.0


From 6c9ef4b9d2b46f87b8c7bd08b74d39ec981d32f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:41 +0000
Subject: [PATCH 09/21] fix: replication ids hold milliseconds, not seconds

Redis stream entry ids start with the unix time in milliseconds, so nothing was
ever trimmed from the stream or expired from the inactive set and the
assignments, and watches never timed out. The in-memory replicator now
generates ids in the same format.
---
 .../statestore/cache/replicatedticketcache.go       | 13 +++++++------
 core/internal/statestore/memory/main.go             |  7 ++++---
 core/internal/statestore/redis/redis.go             |  3 ++-
 core/main.go                                        |  4 ++--
 4 files changed, 15 insertions(+), 12 deletions(-)

diff --git a/core/internal/statestore/cache/replicatedticketcache.go b/core/internal/statestore/cache/replicatedticketcache.go
index 2f12edf..4d9bc49 100644
--- a/core/internal/statestore/cache/replicatedticketcache.go
+++ b/core/internal/statestore/cache/replicatedticketcache.go
@@ -281,9 +281,10 @@ func (tc *ReplicatedTicketCache) IncomingReplicationQueue(ctx context.Context) {
 		// revisit / possibly do it asynchronously
 		//
 		// Ticket IDs are assigned by Redis in the format of
-		// <unix_timestamp>-<index> where the index increments every time a
-		// ticket is created during the same second. We are only
-		// interested in the ticket creation time (the unix timestamp) here.
+		// <unix_timestamp>-<index> where the timestamp is in milliseconds and
+		// the index increments every time a ticket is created during the same
+		// millisecond. We are only interested in the ticket creation time (the
+		// unix timestamp) here.
 		//
 		// The in-memory replication module just follows the redis entry ID
 		// convention so this works fine, but retrieving the creation time
@@ -321,7 +322,7 @@ func (tc *ReplicatedTicketCache) IncomingReplicationQueue(ctx context.Context) {
 				if err != nil {
 					exLogger.Error("Unable to parse ticket ID into an unix timestamp when trying to expire old assignments")
 				}
-				if (time.Now().Unix() - ticketCreationTime) > int64(tc.Cfg.GetInt("OM_CACHE_TICKET_TTL_SECS")) {
+				if (time.Now().UnixMilli() - ticketCreationTime) > 1000*int64(tc.Cfg.GetInt("OM_CACHE_TICKET_TTL_SECS")) {
 					// Ensure that when expiring a ticket from the inactive set, the ticket is always deleted as well.
 					_, existed := tc.Tickets.LoadAndDelete(id)
 					if existed {
@@ -354,8 +355,8 @@ func (tc *ReplicatedTicketCache) IncomingReplicationQueue(ctx context.Context) {
 				if err != nil {
 					exLogger.Error("Unable to parse ticket ID into an unix timestamp when trying to expire old assignments")
 				}
-				if (time.Now().Unix() - ticketCreationTime) >
-					int64(tc.Cfg.GetInt("OM_CACHE_TICKET_TTL_SECS")+tc.Cfg.GetInt("OM_CACHE_ASSIGNMENT_ADDITIONAL_TTL_SECS")) {
+				if (time.Now().UnixMilli() - ticketCreationTime) >
+					1000*int64(tc.Cfg.GetInt("OM_CACHE_TICKET_TTL_SECS")+tc.Cfg.GetInt("OM_CACHE_ASSIGNMENT_ADDITIONAL_TTL_SECS")) {
 					tc.Assignments.Delete(id)
 					numAssignmentDeletions++
 				}
diff --git a/core/internal/statestore/memory/main.go b/core/internal/statestore/memory/main.go
index cda8276..a38d4e6 100644
--- a/core/internal/statestore/memory/main.go
+++ b/core/internal/statestore/memory/main.go
@@ -97,12 +97,13 @@ func (rc *memoryReplicator) SendUpdates(updates []*store.StateUpdate) []*store.S
 // GetReplId mocks how Redis Streams generate entry IDs
 // https://redis.io/docs/data-types/streams/#entry-ids
 func (rc *memoryReplicator) getReplId() string {
-	if time.Now().Unix() == rc.replTS.Unix() {
+	// Redis entry ids have millisecond timestamps, and never go backwards.
+	if now := time.Now(); now.UnixMilli() <= rc.replTS.UnixMilli() {
 		rc.replCount += 1
 	} else {
-		rc.replTS = time.Now()
+		rc.replTS = now
 		rc.replCount = 0
 	}
-	id := fmt.Sprintf("%v-%v", strconv.FormatInt(rc.replTS.Unix(), 10), rc.replCount)
+	id := fmt.Sprintf("%v-%v", strconv.FormatInt(rc.replTS.UnixMilli(), 10), rc.replCount)
 	return id
 }
diff --git a/core/internal/statestore/redis/redis.go b/core/internal/statestore/redis/redis.go
index df802cf..98f7cc1 100644
--- a/core/internal/statestore/redis/redis.go
+++ b/core/internal/statestore/redis/redis.go
@@ -186,7 +186,8 @@ func (rr *redisReplicator) SendUpdates(updates []*store.StateUpdate) []*store.St
 	}
 
 	// Append command to remove expired entries
-	expirationThresh := strconv.FormatInt(time.Now().Unix()-rr.cfg.GetInt64("OM_CACHE_TICKET_TTL_SECS"), 10)
+	// Redis stream entry ids start with the unix time in milliseconds.
+	expirationThresh := strconv.FormatInt(time.Now().UnixMilli()-1000*rr.cfg.GetInt64("OM_CACHE_TICKET_TTL_SECS"), 10)
 	logger.Debugf("Executing redis command: XTRIM om-replication MINID %v", expirationThresh)
 	err := rConn.Send("XTRIM", "om-replication", "MINID", expirationThresh)
 	if err != nil {
diff --git a/core/main.go b/core/main.go
index 7a50e9e..36cacf8 100644
--- a/core/main.go
+++ b/core/main.go
@@ -852,11 +852,11 @@ func (s *grpcServer) WatchAssignments(req *pb.WatchAssignmentsRequest, stream pb
 		}(id)
 
 		// Get creation timestamp from ID
-		x, err := strconv.ParseInt(strings.Split(id, "-")[0], 0, 64)
+		x, err := strconv.ParseInt(strings.Split(id, "-")[0], 10, 64)
 		if err != nil {
 			logger.Error(err)
 		}
-		ticketCtime := time.Unix(x, 0)
+		ticketCtime := time.UnixMilli(x)
 
 		// find the newest ticket creation time.
 		if ticketCtime.After(newestTicketCtime) {
-- 
2.43.0


From e523dc56f3420a646a339c5b4df839719aeba6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:45 +0000
Subject: [PATCH 10/21] fix: only accept whole replication ids as ticket ids

The validation expression was not anchored, so any string containing a dash
passed.
---
 core/internal/statestore/memory/main.go | 2 +-
 core/internal/statestore/redis/redis.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/internal/statestore/memory/main.go b/core/internal/statestore/memory/main.go
index a38d4e6..18bd684 100644
--- a/core/internal/statestore/memory/main.go
+++ b/core/internal/statestore/memory/main.go
@@ -40,7 +40,7 @@ func New(cfg *viper.Viper) *memoryReplicator {
 // GetReplIdValidationRegex returns a raw string representing a regular
 // expression that can be used to match replication id strings.
 func (rc *memoryReplicator) GetReplIdValidationRegex() string {
-	return `\d*-\d*`
+	return `^\d+-\d+$`
 }
 
 // GetUpdates mocks how the statestore/redis module processes a Redis Stream XRANGE command.
diff --git a/core/internal/statestore/redis/redis.go b/core/internal/statestore/redis/redis.go
index 98f7cc1..a5e7b5f 100644
--- a/core/internal/statestore/redis/redis.go
+++ b/core/internal/statestore/redis/redis.go
@@ -322,5 +322,5 @@ func (rr *redisReplicator) GetUpdates() []*store.StateUpdate {
 // expression that can be used to match replication id strings.
 // https://redis.io/docs/data-types/streams/#entry-ids
 func (rr *redisReplicator) GetReplIdValidationRegex() string {
-	return `\d*-\d*`
+	return `^\d+-\d+$`
 }
-- 
2.43.0


From 598df6a47e9f95f9bae08fff73bf7eb6831b3c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:16 +0000
Subject: [PATCH 11/21] fix: return assignment errors, and apply the update
 limit and id validation to assignments

CreateAssignments computed an error and then returned success, ignored
OM_MAX_STATE_UPDATES_PER_CALL and accepted any non-empty string as ticket id.
---
 core/main.go | 63 +++++++++++++++++++++++++++++++---------------------
 1 file changed, 38 insertions(+), 25 deletions(-)

diff --git a/core/main.go b/core/main.go
index 36cacf8..b64cb92 100644
--- a/core/main.go
+++ b/core/main.go
@@ -754,6 +754,13 @@ func (s *grpcServer) CreateAssignments(parentCtx context.Context, req *pb.Create
 	if req.GetAssignmentRoster() == nil || req.GetAssignmentRoster().GetAssignment() == nil {
 		return nil, status.Error(codes.InvalidArgument, "roster with assignment is required")
 	}
+	numReqUpdates := len(req.GetAssignmentRoster().GetTickets())
+	if numReqUpdates > cfg.GetInt("OM_MAX_STATE_UPDATES_PER_CALL") {
+		errMsg := fmt.Sprintf("Too many ticket assignments requested in a single call (configured maximum %v, requested %v)",
+			cfg.GetInt("OM_MAX_STATE_UPDATES_PER_CALL"), numReqUpdates)
+		err := status.Error(codes.InvalidArgument, errMsg)
+		return nil, err
+	}
 	assignmentPb, err := proto.Marshal(req.GetAssignmentRoster().GetAssignment())
 	if assignmentPb == nil || err != nil {
 		err = errors.Wrap(err, "failed to marshal the assignment protobuf")
@@ -761,31 +768,37 @@ func (s *grpcServer) CreateAssignments(parentCtx context.Context, req *pb.Create
 		return nil, err
 	}
 
-	rChan := make(chan *store.StateResponse, len(req.GetAssignmentRoster().GetTickets()))
-	numUpdates := 0
+	// Validate input against state storage event id format
+	ticketIds := make([]string, 0, numReqUpdates)
 	for _, ticket := range req.GetAssignmentRoster().GetTickets() {
-		if ticket.Id != "" {
-			logger.Debugf("Assignment request ticket id: %v", ticket.Id)
-			tc.UpRequests <- &cache.UpdateRequest{
-				// This command is replicated to all other om-core instances
-				// using the batch writing async goroutine
-				// tc.OutgoingReplicationQueue() and its effect is applied to the
-				// local ticket cache in the update processing async goroutine
-				// tc.IncomingReplicationQueue().
-				Update: store.StateUpdate{
-					Cmd:   store.Assign,
-					Key:   ticket.Id,
-					Value: string(assignmentPb[:]),
-				},
-				ResultsChan: rChan,
-				Ctx:         parentCtx,
-			}
-			numUpdates++
-		} else {
-			// Note the error but continue processing
-			err = status.Error(codes.Internal, "Empty ticket ID in assignment request!")
-			logger.Error(err)
+		ticketIds = append(ticketIds, ticket.GetId())
+	}
+	validTicketIds, invalidTicketIds := validateTicketIds(ticketIds)
+	if len(invalidTicketIds) > 0 {
+		// Note the error but continue processing
+		err = status.Errorf(codes.Internal, "%v invalid ticket IDs in assignment request", len(invalidTicketIds))
+		logger.Error(err)
+	}
+
+	rChan := make(chan *store.StateResponse, len(validTicketIds))
+	numUpdates := 0
+	for _, id := range validTicketIds {
+		logger.Debugf("Assignment request ticket id: %v", id)
+		tc.UpRequests <- &cache.UpdateRequest{
+			// This command is replicated to all other om-core instances
+			// using the batch writing async goroutine
+			// tc.OutgoingReplicationQueue() and its effect is applied to the
+			// local ticket cache in the update processing async goroutine
+			// tc.IncomingReplicationQueue().
+			Update: store.StateUpdate{
+				Cmd:   store.Assign,
+				Key:   id,
+				Value: string(assignmentPb[:]),
+			},
+			ResultsChan: rChan,
+			Ctx:         parentCtx,
 		}
+		numUpdates++
 	}
 
 	for i := 0; i < numUpdates; i++ {
@@ -795,7 +808,7 @@ func (s *grpcServer) CreateAssignments(parentCtx context.Context, req *pb.Create
 
 		if results.Err != nil {
 			// Wrap redis error and give it a gRPC internal server error status code
-			err = status.Error(codes.Internal, fmt.Errorf("Unable to delete ticket: %w", results.Err).Error())
+			err = status.Error(codes.Internal, fmt.Errorf("Unable to assign ticket: %w", results.Err).Error())
 			logger.Error(err)
 		}
 	}
@@ -805,7 +818,7 @@ func (s *grpcServer) CreateAssignments(parentCtx context.Context, req *pb.Create
 	// Record metrics
 	AssignmentsPerCall.Record(parentCtx, int64(numUpdates))
 
-	return &pb.CreateAssignmentsResponse{}, nil
+	return &pb.CreateAssignmentsResponse{}, err
 }
 
 // WatchAssignments should be considered deprecated, and is only provided for
-- 
2.43.0


From 661bdd2cd617a274a3e3ff03d7285ce922f502ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:50 +0000
Subject: [PATCH 12/21] fix: end assignment watches cleanly

A watch that timed out crashed the server when an assignment was made later
(send on closed channel), watches of callers that went away kept running, and
the number of open watches went up instead of down on a timeout.
---
 core/main.go | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/core/main.go b/core/main.go
index b64cb92..ad90b95 100644
--- a/core/main.go
+++ b/core/main.go
@@ -840,7 +840,11 @@ func (s *grpcServer) WatchAssignments(req *pb.WatchAssignmentsRequest, stream pb
 	// var init
 	newestTicketCtime := time.Now()
 	updateChan := make(chan *pb.StreamedWatchAssignmentsResponse)
-	defer close(updateChan)
+
+	// Stops all goroutines that are still looking for an assignment when this
+	// function returns, or when the caller has gone away.
+	ctx, cancel := context.WithCancel(stream.Context())
+	defer cancel()
 
 	for _, id := range req.GetTicketIds() {
 		// Launch an asynch goroutine for each ticket ID in the request that just loops,
@@ -852,15 +856,22 @@ func (s *grpcServer) WatchAssignments(req *pb.WatchAssignmentsRequest, stream pb
 					assignment := value.(*pb.Assignment)
 					logger.Debugf(" watchassignments loop got assignment %v for ticketid: %v",
 						assignment.Connection, ticketId)
-					updateChan <- &pb.StreamedWatchAssignmentsResponse{
+					select {
+					case updateChan <- &pb.StreamedWatchAssignmentsResponse{
 						Assignment: assignment,
 						Id:         ticketId,
+					}:
+					case <-ctx.Done():
 					}
 					return
 				}
 				// TODO exp bo + jitter. Not a priority since this API is
 				// marked as deprecated.
-				time.Sleep(1 * time.Second)
+				select {
+				case <-time.After(1 * time.Second):
+				case <-ctx.Done():
+					return
+				}
 			}
 		}(id)
 
@@ -877,6 +888,8 @@ func (s *grpcServer) WatchAssignments(req *pb.WatchAssignmentsRequest, stream pb
 		}
 	}
 	AssignmentWatches.Add(context.Background(), int64(len(req.GetTicketIds())))
+	remainingWatches := len(req.GetTicketIds())
+	defer func() { AssignmentWatches.Add(context.Background(), int64(-remainingWatches)) }()
 
 	// loop once per result we want to get.
 	// Exit when we've gotten all results or timeout is reached.
@@ -884,14 +897,18 @@ func (s *grpcServer) WatchAssignments(req *pb.WatchAssignmentsRequest, stream pb
 	// time to wait from it's creation time + configured TTL
 	// This is a very naive implementation. This functionality is deprecated.
 	timeout := time.After(time.Until(newestTicketCtime.Add(time.Second * time.Duration(cfg.GetInt("OM_CACHE_TICKET_TTL_SECS")))))
-	for i, _ := range req.GetTicketIds() {
+	for remainingWatches > 0 {
 		select {
 		case thisAssignment := <-updateChan:
+			remainingWatches--
 			AssignmentWatches.Add(context.Background(), -1)
-			stream.Send(thisAssignment)
+			if err := stream.Send(thisAssignment); err != nil {
+				return err
+			}
 		case <-timeout:
-			AssignmentWatches.Add(context.Background(), int64(len(req.GetTicketIds())-i))
 			return nil
+		case <-ctx.Done():
+			return ctx.Err()
 		}
 	}
 
-- 
2.43.0


From d49cd600d18d3bb829bf76686ee78f6a48a86ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:25 +0000
Subject: [PATCH 13/21] fix: skip unknown entries in the replication stream

Entries of an unknown kind were applied as a ticket with an empty id, and an
assign entry with too few fields crashed the server.
---
 core/internal/statestore/redis/redis.go | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/core/internal/statestore/redis/redis.go b/core/internal/statestore/redis/redis.go
index a5e7b5f..9d92b3a 100644
--- a/core/internal/statestore/redis/redis.go
+++ b/core/internal/statestore/redis/redis.go
@@ -290,28 +290,34 @@ func (rr *redisReplicator) GetUpdates() []*store.StateUpdate {
 				if err != nil {
 					logger.Error(err)
 				}
-				switch y[0] {
-				case "ticket":
+
+				// update the current replId to indicate this update was processed
+				rr.replId = replId
+
+				// Every kind of update om-core writes has a fixed number of fields.
+				// Anything else found in the stream isn't an update to the cache.
+				switch {
+				case len(y) >= 2 && y[0] == "ticket":
 					thisUpdate.Cmd = store.Ticket
 					thisUpdate.Key = replId
 					thisUpdate.Value = y[1] // Only argument for a ticket is the ticket PB
-				case "activate":
+				case len(y) >= 2 && y[0] == "activate":
 					thisUpdate.Cmd = store.Activate
 					thisUpdate.Key = y[1] // Only argument for a ticket activation is the ticket's ID
-				case "deactivate":
+				case len(y) >= 2 && y[0] == "deactivate":
 					thisUpdate.Cmd = store.Deactivate
 					thisUpdate.Key = y[1] // Only argument for a ticket deactivation is the ticket's ID
-				case "assign":
+				case len(y) >= 4 && y[0] == "assign":
 					thisUpdate.Cmd = store.Assign
 					thisUpdate.Key = y[1]   // ticket's ID
 					thisUpdate.Value = y[3] // assignment
+				default:
+					logger.Errorf("Ignoring unknown update %v in replication stream", replId)
+					continue
 				}
 
 				// Populated all the fields without an error
 				out = append(out, thisUpdate)
-
-				// update the current replId to indicate this update was processed
-				rr.replId = replId
 			}
 		}
 	}
-- 
2.43.0


From 30a4f99899abd017e27e392b4cc2f00d90450207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:44 +0000
Subject: [PATCH 14/21] fix: reassemble pools whose first chunk has no
 participants

A pool without participants in its first chunk and with participants in a later
one crashed the match function.
---
 mmf/server/server.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mmf/server/server.go b/mmf/server/server.go
index dbdc0d2..6d17e30 100644
--- a/mmf/server/server.go
+++ b/mmf/server/server.go
@@ -94,6 +94,11 @@ func GetChunkedRequest(stream pb.MatchMakingFunctionService_RunServer) (*pb.Prof
 				}
 			} else {
 				// concate pools split amoung multiple chunks
+				if pools[name].Participants == nil {
+					// No participants in any chunk so far.
+					pools[name].Participants = pool.GetParticipants()
+					continue
+				}
 				pools[name].Participants.Tickets = append(pools[name].Participants.Tickets, pool.GetParticipants().GetTickets()...)
 			}
 		}
-- 
2.43.0


From f6f83efee791e86e1c879e9ec3e9decbbb8e9f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:47 +0000
Subject: [PATCH 15/21] fix: use tickets that are in several pools only once in
 soloduel matches

---
 functions/golang/soloduel/soloduel.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/functions/golang/soloduel/soloduel.go b/functions/golang/soloduel/soloduel.go
index fc20661..f23aa4b 100644
--- a/functions/golang/soloduel/soloduel.go
+++ b/functions/golang/soloduel/soloduel.go
@@ -70,9 +70,13 @@ func (s *MmfServer) Run(stream pb.MatchMakingFunctionService_RunServer) error {
 	// players at random; every pool of tickets can be matched to
 	// each other.
 	tickets := []*pb.Ticket{}
+	seen := map[string]bool{} // Pools can overlap; use every ticket only once.
 	for pname, pool := range req.GetPools() {
 		for _, ticket := range pool.GetParticipants().GetTickets() {
-			tickets = append(tickets, ticket)
+			if !seen[ticket.GetId()] {
+				seen[ticket.GetId()] = true
+				tickets = append(tickets, ticket)
+			}
 		}
 		logger.Debugf("Found %v tickets in pool %v", len(tickets), pname)
 	}
-- 
2.43.0


From 76a7f612d30d181c7d6c8abfb39cf33c65a668b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:03 +0000
Subject: [PATCH 16/21] fix: wait for all activations in the example
 matchmaker, and don't activate tickets that weren't created

---
 matchmaker-example/main.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/matchmaker-example/main.go b/matchmaker-example/main.go
index 6f2fad3..99a252f 100644
--- a/matchmaker-example/main.go
+++ b/matchmaker-example/main.go
@@ -415,7 +415,10 @@ func activateTickets(ctx context.Context, grpcClient pb.OpenMatchServiceClient,
 
 			// Kick off activation in a goroutine in case we had to split on
 			// maxActivationsPerCall, this way the calls are made concurrently.
+			// Track this goroutine
+			activationWg.Add(1)
 			go func(ticketsAwaitingActivation []string) {
+				defer activationWg.Done()
 
 				// Quick in-line function to grab information
 				// the calling function put into the context when
@@ -429,10 +432,6 @@ func activateTickets(ctx context.Context, grpcClient pb.OpenMatchServiceClient,
 					return ts
 				}
 
-				// Track this goroutine
-				activationWg.Add(1)
-				defer activationWg.Done()
-
 				// Activate tickets
 				reqPb := &pb.ActivateTicketsRequest{TicketIds: ticketsAwaitingActivation}
 				var resPb *pb.ActivateTicketsResponse
@@ -604,7 +603,10 @@ func (mmfe *mockMatchmakerFrontend) Run(ctx context.Context) {
 				// tickets concurrently.
 				go func() {
 					defer ticketWg.Done()
-					ticketIdsToActivate <- mmfe.proxyCreateTicket(generateMockClientRequest(ctx))
+					// There is nothing to activate if the ticket wasn't created.
+					if id := mmfe.proxyCreateTicket(generateMockClientRequest(ctx)); id != "" {
+						ticketIdsToActivate <- id
+					}
 				}()
 			}
 
-- 
2.43.0


From 81e61357fe08e5a7792281ced3d84d7de77f0012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:10 +0000
Subject: [PATCH 17/21] fix: end an update cycle after its time limit even if
 there are more updates

---
 core/internal/statestore/cache/replicatedticketcache.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/core/internal/statestore/cache/replicatedticketcache.go b/core/internal/statestore/cache/replicatedticketcache.go
index 4d9bc49..3d91c8e 100644
--- a/core/internal/statestore/cache/replicatedticketcache.go
+++ b/core/internal/statestore/cache/replicatedticketcache.go
@@ -184,11 +184,11 @@ func (tc *ReplicatedTicketCache) IncomingReplicationQueue(ctx context.Context) {
 		time.Sleep(time.Millisecond * time.Duration(tc.Cfg.GetInt("OM_CACHE_IN_WAIT_TIMEOUT_MS")))
 		done := false
 
-		for !done {
-			// Maximum length of time we can process updates access to the
-			// ticket cache is locked during updates, so we need a hard limit here.
-			updateTimeout := time.After(time.Millisecond * 500)
+		// Maximum length of time we can process updates access to the
+		// ticket cache is locked during updates, so we need a hard limit here.
+		updateTimeout := time.After(time.Millisecond * 500)
 
+		for !done {
 			// Process all incoming updates (up to the maximum defined in the
 			// config var OM_CACHE_IN_WAIT_TIMEOUT_MS), up until there
 			// are none left or the lock timeout is reached.
-- 
2.43.0


From e5b3bffe4dd5a39c9fd4a63cace78dd9c970a8e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:28 +0000
Subject: [PATCH 18/21] fix: read the REST match stream as JSON, whatever its
 white space

---
 matchmaker-example/main.go | 24 +++++++++---------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/matchmaker-example/main.go b/matchmaker-example/main.go
index 99a252f..7d4ea8a 100644
--- a/matchmaker-example/main.go
+++ b/matchmaker-example/main.go
@@ -55,6 +55,7 @@ package main
 import (
 	"bytes"
 	"context"
+	"encoding/json"
 	"errors"
 	"flag"
 	"fmt"
@@ -286,12 +287,14 @@ func main() {
 				log.Fatalf("Request failed with status: %s", resp.Status)
 			}
 
-			// Process the stream
+			// Process the stream. grpc-gateway returns every result inside a
+			// JSON container under the key 'result', one after another.
+			decoder := json.NewDecoder(resp.Body)
 			for {
-				// Simulate message decoding (adjust based on your actual message format)
-				var msg string
-				_, err := fmt.Fscanf(resp.Body, "%s\n", &msg)
-
+				var msg struct {
+					Result json.RawMessage `json:"result"`
+				}
+				err := decoder.Decode(&msg)
 				if err == io.EOF {
 					resp.Body.Close()
 					break // End of stream
@@ -301,18 +304,9 @@ func main() {
 					logger.Fatalf("Error reading stream: %v", err)
 				}
 
-				// NOTE: this is NOT a clean implementation.
-				// grpc-gateway returns your result inside a JSON
-				// container under the key 'result', so the actual text we need
-				// to pass to protojson.Unmarshal needs to omit the top level
-				// JSON object. Rather than marshal the text to json (which is
-				// slow), we just slice off the first 10 letters
-				// '{"result":'
-				// and the last character '}' (which is fast, but brittle)
-				trimmedMsg := msg[10:(len(msg) - 1)]
 				// Unmarshal json back into protobuf
 				resPb = &pb.StreamedMmfResponse{}
-				err = protojson.Unmarshal([]byte(trimmedMsg), resPb)
+				err = protojson.Unmarshal(msg.Result, resPb)
 				if err != nil {
 					logger.WithFields(logrus.Fields{
 						"pb_message": "StreamedMmfResponse",
-- 
2.43.0


From e1d7f91055cf0eefe160714e5f00fbad53da3c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:28 +0000
Subject: [PATCH 19/21] fix: do not block on re-activating more tickets than
 the queue holds

---
 matchmaker-example/main.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/matchmaker-example/main.go b/matchmaker-example/main.go
index 7d4ea8a..3b0e323 100644
--- a/matchmaker-example/main.go
+++ b/matchmaker-example/main.go
@@ -352,19 +352,25 @@ func main() {
 			emptyCycles = 0
 
 			// re-activate tickets from rejected matches
+			// DEBUG: just helps distinguish from initial ticket activations in traces and logs.
+			ctx := context.WithValue(ctx, "type", "re-activate")
 			numRejectedTickets := 0
 			for _, match := range rejectedMatches {
 				for _, roster := range match.GetRosters() {
 					for _, ticket := range roster.GetTickets() {
 						// queue this ticket ID to be re-activated
-						ticketIdsToActivate <- ticket.GetId()
+						select {
+						case ticketIdsToActivate <- ticket.GetId():
+						default:
+							// The queue is full; make room by activating what it holds.
+							activateTickets(ctx, grpcClient, httpClient, ticketIdsToActivate)
+							ticketIdsToActivate <- ticket.GetId()
+						}
 						numRejectedTickets++
 					}
 				}
 			}
 			logger.Infof("Queued %v tickets to be re-activated due to rejected matches", numRejectedTickets)
-			// DEBUG: just helps distinguish from initial ticket activations in traces and logs.
-			ctx := context.WithValue(ctx, "type", "re-activate")
 			activateTickets(ctx, grpcClient, httpClient, ticketIdsToActivate)
 		}
 	}
-- 
2.43.0


From 7be3e57d70ce997148733dac3c42e5dcb4e9349d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:50 +0000
Subject: [PATCH 20/21] fix: count active tickets, not tickets minus the size
 of the inactive list

---
 core/internal/statestore/cache/metrics.go             |  4 ++--
 .../statestore/cache/replicatedticketcache.go         | 11 +++++++----
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/core/internal/statestore/cache/metrics.go b/core/internal/statestore/cache/metrics.go
index df199cc..cab228b 100644
--- a/core/internal/statestore/cache/metrics.go
+++ b/core/internal/statestore/cache/metrics.go
@@ -30,7 +30,7 @@ var (
 	InactiveTickets otelmetrics.Int64ObservableUpDownCounter
 	Assignments     otelmetrics.Int64ObservableUpDownCounter
 
-	TicketCount     int64
+	ActiveCount     int64
 	InactiveCount   int64
 	AssignmentCount int64
 
@@ -95,7 +95,7 @@ func RegisterMetrics(meterPointer *otelmetrics.Meter) {
 	if _, err := meter.RegisterCallback(
 		func(ctx context.Context, o otelmetrics.Observer) error {
 			// TODO
-			o.ObserveInt64(ActiveTickets, TicketCount-InactiveCount)
+			o.ObserveInt64(ActiveTickets, ActiveCount)
 			o.ObserveInt64(InactiveTickets, InactiveCount)
 			o.ObserveInt64(Assignments, AssignmentCount)
 			return nil
diff --git a/core/internal/statestore/cache/replicatedticketcache.go b/core/internal/statestore/cache/replicatedticketcache.go
index 3d91c8e..936cc6c 100644
--- a/core/internal/statestore/cache/replicatedticketcache.go
+++ b/core/internal/statestore/cache/replicatedticketcache.go
@@ -307,7 +307,7 @@ func (tc *ReplicatedTicketCache) IncomingReplicationQueue(ctx context.Context) {
 			var (
 				numInactive            int64
 				numInactiveDeletions   int64
-				numTickets             int64
+				numActive              int64
 				numTicketDeletions     int64
 				numAssignments         int64
 				numAssignmentDeletions int64
@@ -326,7 +326,6 @@ func (tc *ReplicatedTicketCache) IncomingReplicationQueue(ctx context.Context) {
 					// Ensure that when expiring a ticket from the inactive set, the ticket is always deleted as well.
 					_, existed := tc.Tickets.LoadAndDelete(id)
 					if existed {
-						numTickets++
 						numTicketDeletions++
 					}
 
@@ -339,10 +338,14 @@ func (tc *ReplicatedTicketCache) IncomingReplicationQueue(ctx context.Context) {
 
 			// cull expired tickets from local cache
 			tc.Tickets.Range(func(id, ticket any) bool {
-				numTickets++
 				if time.Now().After(ticket.(*pb.Ticket).GetExpirationTime().AsTime()) {
 					tc.Tickets.Delete(id)
 					numTicketDeletions++
+				} else if _, inactive := tc.InactiveSet.Load(id); !inactive {
+					// The inactive list can also contain ids for which there
+					// is no ticket (anymore), so its size says nothing about
+					// the number of active tickets.
+					numActive++
 				}
 				return true
 			})
@@ -365,7 +368,7 @@ func (tc *ReplicatedTicketCache) IncomingReplicationQueue(ctx context.Context) {
 
 			// Log results and record metrics
 			AssignmentCount = numAssignments
-			TicketCount = numTickets
+			ActiveCount = numActive
 			InactiveCount = numInactive
 
 			ExpirationCycleDuration.Record(ctx, float64(time.Since(startTime).Microseconds()/1000.0))
-- 
2.43.0


From 0f1db6937608830f90954840d3bc8c7a3f773abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:26 +0000
Subject: [PATCH 21/21] fix: use tickets that are in several pools only once in
 teamshooter matches

---
 functions/golang/teamshooter/teamshooter.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/functions/golang/teamshooter/teamshooter.go b/functions/golang/teamshooter/teamshooter.go
index d85398f..42c957c 100644
--- a/functions/golang/teamshooter/teamshooter.go
+++ b/functions/golang/teamshooter/teamshooter.go
@@ -75,6 +75,7 @@ func (s *MmfServer) Run(stream pb.MatchMakingFunctionService_RunServer) error {
 	for _, desiredTicketType := range teamComp {
 		poolRosterIndices[desiredTicketType] = 0
 	}
+	used := map[string]bool{} // Pools can overlap; use every ticket only once.
 
 	ticketsExhausted := false
 	var matchNum int
@@ -94,6 +95,11 @@ func (s *MmfServer) Run(stream pb.MatchMakingFunctionService_RunServer) error {
 			// Attempt to fill rosters. If there aren't enough of a given
 			// ticket type, the MMF is finished and should exit.
 			for _, desiredTicketType := range teamComp {
+				// Skip tickets that were used for another ticket type.
+				poolTickets := req.GetPools()[desiredTicketType].GetParticipants().GetTickets()
+				for poolRosterIndices[desiredTicketType] < len(poolTickets) && used[poolTickets[poolRosterIndices[desiredTicketType]].GetId()] {
+					poolRosterIndices[desiredTicketType]++
+				}
 				if poolRosterIndices[desiredTicketType] >= len(req.GetPools()[desiredTicketType].GetParticipants().GetTickets()) {
 					// set the flag to cleanly exit the MMF; not enough tickets to make more matches
 					ticketsExhausted = true
@@ -105,6 +111,7 @@ func (s *MmfServer) Run(stream pb.MatchMakingFunctionService_RunServer) error {
 						rosters[teamName].Tickets,
 						req.GetPools()[desiredTicketType].GetParticipants().GetTickets()[poolRosterIndices[desiredTicketType]],
 					)
+					used[poolTickets[poolRosterIndices[desiredTicketType]].GetId()] = true
 					poolRosterIndices[desiredTicketType]++
 				}
 			}
-- 
2.43.0

