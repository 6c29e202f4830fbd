From 313503838180b4ccaa43466f7e7bff60652be1d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:12 +0000
Subject: [PATCH 01/27] fix: initialize pools before loading the database
 backup

---
 tracker/tracker.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tracker/tracker.go b/tracker/tracker.go
index b21ccdd..dd14b4c 100644
--- a/tracker/tracker.go
+++ b/tracker/tracker.go
@@ -43,6 +43,9 @@ func Run() {
 		config.Logger.Error("Peer expiry < announce interval. Peers will expire before being updated.")
 	}
 
+	// pools must exist before the database loads its backup
+	pools.Initialize(int(config.Config.Numwant.Limit))
+
 	// db
 	peerdb, err := storage.Open()
 	if err != nil {
@@ -51,8 +54,6 @@ func Run() {
 		config.Logger.Info("Initialized storage")
 	}
 
-	pools.Initialize(int(config.Config.Numwant.Limit))
-
 	// run signal handler
 	go signalHandler(peerdb, &udptracker, &httptracker)
 
-- 
2.43.0


From 858fbfe4499b4d1daf601ce8755064c2b8d16d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:12 +0000
Subject: [PATCH 02/27] fix: encode UDP scrape responses as in BEP 15

---
 tracker/udp/protocol/scrape.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tracker/udp/protocol/scrape.go b/tracker/udp/protocol/scrape.go
index 349e71d..a4c76cf 100644
--- a/tracker/udp/protocol/scrape.go
+++ b/tracker/udp/protocol/scrape.go
@@ -40,8 +40,8 @@ func (s *Scrape) Unmarshall(data []byte) error {
 // ScrapeInfo holds the information for each infohash in the scrape response
 type ScrapeInfo struct {
 	Complete   int32
-	Incomplete int32
 	Downloaded int32
+	Incomplete int32
 }
 
 // BitTorrent UDP tracker scrape response
@@ -53,7 +53,7 @@ type ScrapeResp struct {
 
 // Marshall encodes a ScrapeResp to a byte slice.
 func (sr *ScrapeResp) Marshall() ([]byte, error) {
-	buff := bytes.NewBuffer(make([]byte, 8+len(sr.Info)*12))
+	buff := bytes.NewBuffer(make([]byte, 0, 8+len(sr.Info)*12))
 
 	if err := binary.Write(buff, binary.BigEndian, sr.Action); err != nil {
 		return nil, errors.Wrap(err, "failed to encode scrape response action")
-- 
2.43.0


From 01877aee552f69aa88b7a976b472826bdd1a2641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:13 +0000
Subject: [PATCH 03/27] fix: bound compact peer lists by numwant and never
 return stale pooled bytes

---
 tracker/storage/map/hash.go | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/tracker/storage/map/hash.go b/tracker/storage/map/hash.go
index bafc7ad..b3c7354 100644
--- a/tracker/storage/map/hash.go
+++ b/tracker/storage/map/hash.go
@@ -88,7 +88,7 @@ func (db *Memory) PeerListBytes(hash storage.Hash, numWant uint) (peers4 []byte,
 	peermap, ok := db.hashmap[hash]
 	db.mutex.RUnlock()
 	if !ok {
-		return
+		return peers4[:0], peers6[:0]
 	}
 
 	peermap.mutex.RLock()
@@ -98,25 +98,37 @@ func (db *Memory) PeerListBytes(hash storage.Hash, numWant uint) (peers4 []byte,
 
 	if numWant == 0 {
 		peermap.mutex.RUnlock()
-		return
+		return peers4[:0], peers6[:0]
+	}
+
+	// each list holds up to numWant peers
+	max4, max6 := 6*int(numWant), 18*int(numWant)
+	if max4 > cap(peers4) {
+		max4 = cap(peers4)
+	}
+	if max6 > cap(peers6) {
+		max6 = cap(peers6)
 	}
 
 	var pos4, pos6 int
 	for _, peer := range peermap.Peers {
 		if peer.IP.Is6() {
+			if pos6+18 > max6 {
+				continue
+			}
 			copy(peers6[pos6:pos6+16], peer.IP.AsSlice())
 			binary.BigEndian.PutUint16(peers6[pos6+16:pos6+18], peer.Port)
 			pos6 += 18
-			if pos6+18 > cap(peers6) {
-				break
-			}
 		} else {
+			if pos4+6 > max4 {
+				continue
+			}
 			copy(peers4[pos4:pos4+4], peer.IP.AsSlice())
 			binary.BigEndian.PutUint16(peers4[pos4+4:pos4+6], peer.Port)
 			pos4 += 6
-			if pos4+6 > cap(peers4) {
-				break
-			}
+		}
+		if pos4+6 > max4 && pos6+18 > max6 {
+			break
 		}
 	}
 	peermap.mutex.RUnlock()
-- 
2.43.0


From 0df23f7392a352be2e3a0aa3180bb01dfcd0e788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:35 +0000
Subject: [PATCH 04/27] fix: make concurrent announces and trims atomic

---
 tracker/storage/map/memory.go |  9 +++++++--
 tracker/storage/map/peer.go   | 15 ++++++++++-----
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/tracker/storage/map/memory.go b/tracker/storage/map/memory.go
index 71b9f01..3aa2452 100644
--- a/tracker/storage/map/memory.go
+++ b/tracker/storage/map/memory.go
@@ -107,9 +107,14 @@ func (db *Memory) trim() (peers, hashes int) {
 
 		if peersize == 0 {
 			db.mutex.Lock()
-			delete(db.hashmap, hash)
+			// a peer may have been saved or the peermap replaced in the meantime
+			peermap.mutex.RLock()
+			if len(peermap.Peers) == 0 && db.hashmap[hash] == peermap {
+				delete(db.hashmap, hash)
+				hashes++
+			}
+			peermap.mutex.RUnlock()
 			db.mutex.Unlock()
-			hashes++
 		}
 		db.mutex.RLock()
 	}
diff --git a/tracker/storage/map/peer.go b/tracker/storage/map/peer.go
index 30bbe9e..ea842b4 100644
--- a/tracker/storage/map/peer.go
+++ b/tracker/storage/map/peer.go
@@ -11,23 +11,29 @@ import (
 
 func (memoryDb *Memory) Save(ip netip.Addr, port uint16, complete bool, hash storage.Hash, id storage.PeerID) {
 	// get/create the map
+	// it's locked before the database is unlocked so that it can't be trimmed in between
 	memoryDb.mutex.RLock()
 	peermap, ok := memoryDb.hashmap[hash]
+	if ok {
+		peermap.mutex.Lock()
+	}
 	memoryDb.mutex.RUnlock()
 
 	// if submap doesn't exist create it
 	if !ok {
 		memoryDb.mutex.Lock()
-		peermap = memoryDb.makePeermap(hash)
+		// unless someone else did in the meantime
+		if peermap, ok = memoryDb.hashmap[hash]; !ok {
+			peermap = memoryDb.makePeermap(hash)
+		}
+		peermap.mutex.Lock()
 		memoryDb.mutex.Unlock()
 	}
+	defer peermap.mutex.Unlock()
 
 	// get peer
-	peermap.mutex.RLock()
 	peer, peerExists := peermap.Peers[id]
-	peermap.mutex.RUnlock()
 
-	peermap.mutex.Lock()
 	// if peer does not exist then create
 	if !peerExists {
 		peer = pools.Peers.Get()
@@ -51,7 +57,6 @@ func (memoryDb *Memory) Save(ip netip.Addr, port uint16, complete bool, hash sto
 			peermap.Incomplete++
 		}
 	}
-	peermap.mutex.Unlock()
 
 	// update metrics
 	if !fast {
-- 
2.43.0


From 9e770e17eba99021ceafda7a4246febbbc18571b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:35 +0000
Subject: [PATCH 05/27] fix: write the peer count of a backup under the
 torrent's lock

---
 tracker/storage/map/encode_binary.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tracker/storage/map/encode_binary.go b/tracker/storage/map/encode_binary.go
index 0f59e49..22225c1 100644
--- a/tracker/storage/map/encode_binary.go
+++ b/tracker/storage/map/encode_binary.go
@@ -20,6 +20,9 @@ func (db *Memory) encodeBinary() ([]byte, error) {
 	for hash, submap := range db.hashmap {
 		db.mutex.RUnlock()
 
+		// keep the peermap as is until it's written
+		submap.mutex.RLock()
+
 		// write hash and peermap size
 		if err := binary.Write(writer, binary.LittleEndian, &hash); err != nil {
 			return nil, err
@@ -29,7 +32,6 @@ func (db *Memory) encodeBinary() ([]byte, error) {
 		}
 
 		// write peerid and peer
-		submap.mutex.RLock()
 		for id, peer := range submap.Peers {
 			if err := binary.Write(writer, binary.LittleEndian, &id); err != nil {
 				return nil, err
-- 
2.43.0


From 1e8a09ce62795f9719425fedf75cb4ed9f7b58d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:55 +0000
Subject: [PATCH 06/27] fix: count swarms and addresses beyond 16 bits

---
 tracker/stats/stats.go               | 2 +-
 tracker/stats/stats_slow.go          | 2 +-
 tracker/storage/database.go          | 2 +-
 tracker/storage/map/encode_binary.go | 4 ++--
 tracker/storage/map/hash.go          | 2 +-
 tracker/storage/map/memory.go        | 4 ++--
 6 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/tracker/stats/stats.go b/tracker/stats/stats.go
index 10c5da7..5b6fe08 100644
--- a/tracker/stats/stats.go
+++ b/tracker/stats/stats.go
@@ -8,7 +8,7 @@ import (
 
 type ipStats struct {
 	sync.Mutex
-	submap map[netip.Addr]int16
+	submap map[netip.Addr]int32
 }
 
 var (
diff --git a/tracker/stats/stats_slow.go b/tracker/stats/stats_slow.go
index 485b559..50f47df 100644
--- a/tracker/stats/stats_slow.go
+++ b/tracker/stats/stats_slow.go
@@ -12,7 +12,7 @@ const (
 )
 
 func init() {
-	IPStats.submap = make(map[netip.Addr]int16, 250_000)
+	IPStats.submap = make(map[netip.Addr]int32, 250_000)
 }
 
 func (ipstats *ipStats) Total() int {
diff --git a/tracker/storage/database.go b/tracker/storage/database.go
index 4a4ffa2..b0d7819 100644
--- a/tracker/storage/database.go
+++ b/tracker/storage/database.go
@@ -48,7 +48,7 @@ type Database interface {
 	Save(netip.Addr, uint16, bool, Hash, PeerID)
 	Drop(Hash, PeerID)
 
-	HashStats(Hash) (uint16, uint16)
+	HashStats(Hash) (uint32, uint32)
 	PeerList(Hash, uint, bool) [][]byte
 	PeerListBytes(Hash, uint) ([]byte, []byte)
 
diff --git a/tracker/storage/map/encode_binary.go b/tracker/storage/map/encode_binary.go
index 22225c1..1f2acd2 100644
--- a/tracker/storage/map/encode_binary.go
+++ b/tracker/storage/map/encode_binary.go
@@ -83,7 +83,7 @@ func (db *Memory) decodeBinary(data []byte) (peers, hashes int, err error) {
 		}
 
 		var count uint32
-		var complete uint16
+		var complete uint32
 		peermap := db.makePeermap(hash)
 		if err = binary.Read(reader, binary.LittleEndian, &count); err != nil {
 			return
@@ -130,7 +130,7 @@ func (db *Memory) decodeBinary(data []byte) (peers, hashes int, err error) {
 
 		// set complete and incomplete
 		peermap.Complete = complete
-		peermap.Incomplete = uint16(len(peermap.Peers)) - complete
+		peermap.Incomplete = uint32(len(peermap.Peers)) - complete
 
 		hashes++
 	}
diff --git a/tracker/storage/map/hash.go b/tracker/storage/map/hash.go
index b3c7354..881d3fd 100644
--- a/tracker/storage/map/hash.go
+++ b/tracker/storage/map/hash.go
@@ -14,7 +14,7 @@ func (db *Memory) Hashes() int {
 }
 
 // HashStats returns number of complete and incomplete peers associated with the hash
-func (db *Memory) HashStats(hash storage.Hash) (complete, incomplete uint16) {
+func (db *Memory) HashStats(hash storage.Hash) (complete, incomplete uint32) {
 	db.mutex.RLock()
 	peermap, ok := db.hashmap[hash]
 	db.mutex.RUnlock()
diff --git a/tracker/storage/map/memory.go b/tracker/storage/map/memory.go
index 3aa2452..3552172 100644
--- a/tracker/storage/map/memory.go
+++ b/tracker/storage/map/memory.go
@@ -22,8 +22,8 @@ const (
 
 type PeerMap struct {
 	mutex      sync.RWMutex // can't be embedded (https://github.com/golang/go/issues/5819#issuecomment-250596051)
-	Complete   uint16
-	Incomplete uint16
+	Complete   uint32
+	Incomplete uint32
 	Peers      map[storage.PeerID]*storage.Peer
 }
 
-- 
2.43.0


From 63f96db52f2c2098e30859c6aabd26374eefbd23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:56 +0000
Subject: [PATCH 07/27] fix: don't share the stats response header between
 workers

---
 tracker/http/fakeresp.go | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/tracker/http/fakeresp.go b/tracker/http/fakeresp.go
index 31f1b19..977571c 100644
--- a/tracker/http/fakeresp.go
+++ b/tracker/http/fakeresp.go
@@ -8,20 +8,15 @@ import (
 // Hacky fake http response writer to serve expvar over
 
 var (
-	fakeHdr     http.Header
 	statsHeader = []byte("HTTP/1.1 200\r\nContent-Type: application/json; charset=utf-8\r\n\r\n")
 )
 
-func init() {
-	fakeHdr = make(http.Header)
-}
-
 type fakeRespWriter struct {
 	conn net.Conn
 }
 
 func (w fakeRespWriter) Header() http.Header {
-	return fakeHdr
+	return make(http.Header)
 }
 
 func (w fakeRespWriter) Write(data []byte) (int, error) {
-- 
2.43.0


From fe1fb43a1661bc8906c52fef56bf526f05c39989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:59 +0000
Subject: [PATCH 08/27] fix: don't parse bytes left over from previous requests

---
 tracker/http/parser.go | 5 +++++
 tracker/http/worker.go | 2 +-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/tracker/http/parser.go b/tracker/http/parser.go
index 114600e..e4d1e5b 100644
--- a/tracker/http/parser.go
+++ b/tracker/http/parser.go
@@ -31,6 +31,11 @@ type (
 // Custom HTTP parser
 // only supports GET request and up to `maxparams` params but uses no heap memory
 func parse(data []byte, size int) (parsed, error) {
+	// ignore anything left in the buffer by previous requests
+	if size < len(data) {
+		data = data[:size]
+	}
+
 	// uTorrent sometimes encodes scrape req in b64
 	// Example: R0VUIC9zY3JhcGU/aW5mb19oYXNoPS = GET /scrape?info_hash=
 	if bytes.HasPrefix(data, []byte("R0VU")) {
diff --git a/tracker/http/worker.go b/tracker/http/worker.go
index b6ebf69..479e72a 100644
--- a/tracker/http/worker.go
+++ b/tracker/http/worker.go
@@ -116,7 +116,7 @@ func (w *workers) work() {
 			var ip netip.Addr
 			var ipStr string
 
-			forwarded, forwardedIP := parseForwarded(data)
+			forwarded, forwardedIP := parseForwarded(data[:size])
 			if forwarded {
 				if forwardedIP == nil {
 					w.tracker.clientError(conn, "Failed to parse X-Forwarded-For")
-- 
2.43.0


From 6ca3f6c555a815acc7426aa2ad7ebaa109eb77a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:05 +0000
Subject: [PATCH 09/27] fix: take the forwarded address from the header's last
 entry only

---
 tracker/http/forwarded_appeng.go | 6 +++---
 tracker/http/worker.go           | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/tracker/http/forwarded_appeng.go b/tracker/http/forwarded_appeng.go
index 52e2935..8877312 100644
--- a/tracker/http/forwarded_appeng.go
+++ b/tracker/http/forwarded_appeng.go
@@ -8,7 +8,7 @@ import (
 )
 
 func parseForwarded(data []byte) (bool, []byte) {
-	headerKey := []byte("X-Forwarded-For: ")
+	headerKey := []byte("\r\nX-Forwarded-For: ")
 
 	// find X-Forwarded-For header value start and end index
 	headerValueStart := bytes.Index(data, headerKey)
@@ -27,8 +27,8 @@ func parseForwarded(data []byte) (bool, []byte) {
 
 	// if list contains multiple addresses use rightmost (most recent)
 	if bytes.Contains(headerValue, []byte(",")) {
-		lastItemIndex := bytes.LastIndex(headerValue, []byte(",")) + 2
-		return true, headerValue[lastItemIndex:]
+		lastItemIndex := bytes.LastIndex(headerValue, []byte(",")) + 1
+		return true, bytes.TrimSpace(headerValue[lastItemIndex:])
 	}
 
 	return true, headerValue
diff --git a/tracker/http/worker.go b/tracker/http/worker.go
index 479e72a..f656537 100644
--- a/tracker/http/worker.go
+++ b/tracker/http/worker.go
@@ -116,7 +116,7 @@ func (w *workers) work() {
 			var ip netip.Addr
 			var ipStr string
 
-			forwarded, forwardedIP := parseForwarded(data[:size])
+			forwarded, forwardedIP := parseForwarded(data[p.URLend:size])
 			if forwarded {
 				if forwardedIP == nil {
 					w.tracker.clientError(conn, "Failed to parse X-Forwarded-For")
@@ -134,7 +134,7 @@ func (w *workers) work() {
 				break
 			}
 
-			w.tracker.announce(conn, &v, ip)
+			w.tracker.announce(conn, &v, ip.Unmap())
 		case "/scrape":
 			var count int
 			for i := 0; i < len(p.Params); i++ {
-- 
2.43.0


From 49cb5a862a1341fe444d7075ce34e5145d3b4286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:33 +0000
Subject: [PATCH 10/27] fix: give up stopping the daemon after 10 seconds

---
 controller/controller.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/controller/controller.go b/controller/controller.go
index 8826d65..b519f2a 100644
--- a/controller/controller.go
+++ b/controller/controller.go
@@ -84,12 +84,12 @@ func (controller *Controller) Stop() error {
 
 	fmt.Print("waiting for process to exit")
 	i := 0
-	for ; err == nil || i == 100; err = syscall.Kill(processid, syscall.Signal(0)) {
+	for ; err == nil && i < 100; err = syscall.Kill(processid, syscall.Signal(0)) {
 		time.Sleep(100 * time.Millisecond)
 		fmt.Print(".")
 		i++
 	}
-	if i == 100 {
+	if err == nil {
 		return errors.New(" trakx failed to stop within 10s")
 	}
 	if err.Error() != "no such process" {
-- 
2.43.0


From fbc2d78f573a34a333d0f4c4f9cceab589bc33b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:33 +0000
Subject: [PATCH 11/27] fix: don't wait forever for a heartbeat

---
 controller/controller.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/controller/controller.go b/controller/controller.go
index b519f2a..b38b31f 100644
--- a/controller/controller.go
+++ b/controller/controller.go
@@ -18,6 +18,7 @@ import (
 
 const (
 	logFilePermissions = 0644
+	heartbeatTimeout   = 3 * time.Second
 )
 
 type Controller struct {
@@ -123,6 +124,8 @@ func (controller *Controller) Status() (pidFileExists bool, processAlive bool, h
 	if config.Config.UDP.Enabled {
 		conn, err := net.Dial("udp", fmt.Sprintf("localhost:%d", config.Config.UDP.Port))
 		if err == nil {
+			defer conn.Close()
+			conn.SetDeadline(time.Now().Add(heartbeatTimeout))
 			conn.Write(udpprotocol.HeartbeatRequest)
 			data := make([]byte, 1)
 			size, err := conn.Read(data)
@@ -135,9 +138,13 @@ func (controller *Controller) Status() (pidFileExists bool, processAlive bool, h
 		}
 	}
 	if config.Config.HTTP.Mode == config.TrackerModeEnabled {
-		resp, err := http.Get(fmt.Sprintf("http://localhost:%d/heartbeat", config.Config.HTTP.Port))
-		if err == nil && resp.StatusCode == 200 {
-			heartbeat = true
+		client := http.Client{Timeout: heartbeatTimeout}
+		resp, err := client.Get(fmt.Sprintf("http://localhost:%d/heartbeat", config.Config.HTTP.Port))
+		if err == nil {
+			defer resp.Body.Close()
+			if resp.StatusCode == 200 {
+				heartbeat = true
+			}
 		}
 	}
 
-- 
2.43.0


From 190ba7dad311b0a56d73161caa540d36357378be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:33 +0000
Subject: [PATCH 12/27] fix: replace the backup file atomically

---
 tracker/storage/map/backup_file.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/tracker/storage/map/backup_file.go b/tracker/storage/map/backup_file.go
index 727c5ae..30a7c5a 100644
--- a/tracker/storage/map/backup_file.go
+++ b/tracker/storage/map/backup_file.go
@@ -2,6 +2,7 @@ package gomap
 
 import (
 	"os"
+	"sync"
 	"time"
 
 	"github.com/crimist/trakx/config"
@@ -12,7 +13,8 @@ import (
 
 // FileBackup backs up the peer database to a local file.
 type FileBackup struct {
-	db *Memory
+	db    *Memory
+	mutex sync.Mutex // one save at a time
 }
 
 func (bck *FileBackup) Init(db storage.Database) error {
@@ -72,15 +74,23 @@ func (bck *FileBackup) writeFile() (int, error) {
 		return 0, errors.Wrap(err, "failed to encode db")
 	}
 
-	if err := os.WriteFile(config.Config.DB.Backup.Path, encoded, 0644); err != nil {
+	// write to a temporary file first so that the last backup stays intact until this one is complete
+	tmpPath := config.Config.DB.Backup.Path + ".tmp"
+	if err := os.WriteFile(tmpPath, encoded, 0644); err != nil {
 		return 0, errors.Wrap(err, "failed to write file to disk")
 	}
+	if err := os.Rename(tmpPath, config.Config.DB.Backup.Path); err != nil {
+		return 0, errors.Wrap(err, "failed to replace previous backup")
+	}
 
 	return len(encoded), nil
 }
 
 // Save encodes and writes the database to a file
 func (bck *FileBackup) Save() error {
+	bck.mutex.Lock()
+	defer bck.mutex.Unlock()
+
 	config.Logger.Info("Writing database to file")
 	start := time.Now()
 
-- 
2.43.0


From df5e60505fc331cef56648011f2ac6134fd36b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:34 +0000
Subject: [PATCH 13/27] fix: save an empty database to postgres and release the
 connection

---
 tracker/storage/map/backup_pg.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/tracker/storage/map/backup_pg.go b/tracker/storage/map/backup_pg.go
index b79efab..c3e0567 100644
--- a/tracker/storage/map/backup_pg.go
+++ b/tracker/storage/map/backup_pg.go
@@ -75,12 +75,12 @@ func (bck PgBackup) Save() error {
 	config.Logger.Info("Encoded database", zap.Duration("duration", time.Since(start)))
 	start = time.Now()
 
-	_, err = bck.pg.Query("INSERT INTO trakx(bytes) VALUES($1)", data)
+	_, err = bck.pg.Exec("INSERT INTO trakx(bytes) VALUES($1)", data)
 	if err != nil {
 		return errors.Wrap(err, "`INSERT` statement failed")
 	}
 
-	config.Logger.Info("Saved database to pg", zap.Any("hash", data[:20]), zap.Duration("pg duration", time.Since(start)))
+	config.Logger.Info("Saved database to pg", zap.Any("hash", logHash(data)), zap.Duration("pg duration", time.Since(start)))
 
 	return nil
 }
@@ -123,11 +123,19 @@ attemptLoad:
 		return errors.Wrap(err, "failed to decode data")
 	}
 
-	config.Logger.Info("Loaded stored database from pg", zap.Int("size", len(bytes)), zap.Any("hash", bytes[:20]), zap.Int("peers", peers), zap.Int("hashes", hashes))
+	config.Logger.Info("Loaded stored database from pg", zap.Int("size", len(bytes)), zap.Any("hash", logHash(bytes)), zap.Int("peers", peers), zap.Int("hashes", hashes))
 
 	return nil
 }
 
+// logHash returns the start of an encoded database, which is empty if the database is
+func logHash(data []byte) []byte {
+	if len(data) > 20 {
+		return data[:20]
+	}
+	return data
+}
+
 func (bck PgBackup) trim() (int64, error) {
 	var trimmed int64
 
-- 
2.43.0


From 716baafdde3e714f738d29ba7c576fbbdd0f62f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:35 +0000
Subject: [PATCH 14/27] fix: don't lose requests counted while publishing stats

---
 tracker/stats/publish.go | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/tracker/stats/publish.go b/tracker/stats/publish.go
index bbac1bb..c601930 100644
--- a/tracker/stats/publish.go
+++ b/tracker/stats/publish.go
@@ -47,11 +47,11 @@ func Publish(peerdb storage.Database, udpconns func() int64) {
 	uptime := expvar.NewInt("trakx.internal.uptime")
 
 	utils.RunOn(config.Config.ExpvarInterval, func() {
-		// set expvars
-		hits.Set(Hits.Load())
-		connects.Set(Connects.Load())
-		announces.Set(Announces.Load())
-		scrapes.Set(Scrapes.Load())
+		// set expvars and reset requests / s stats
+		hits.Set(Hits.Swap(0))
+		connects.Set(Connects.Swap(0))
+		announces.Set(Announces.Swap(0))
+		scrapes.Set(Scrapes.Swap(0))
 
 		seeds.Set(Seeds.Load())
 		leeches.Set(Leeches.Load())
@@ -70,11 +70,5 @@ func Publish(peerdb storage.Database, udpconns func() int64) {
 
 		goroutines.Set(int64(runtime.NumGoroutine()))
 		uptime.Set(int64(time.Since(initTime) / time.Second))
-
-		// reset requests / s stats
-		Hits.Store(0)
-		Connects.Store(0)
-		Announces.Store(0)
-		Scrapes.Store(0)
 	})
 }
-- 
2.43.0


From e307c1b2b3cf0c3cead00405e06ab1c011cb1d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:53 +0000
Subject: [PATCH 15/27] fix: count the loaded peers before trims can run

---
 tracker/storage/database.go   | 4 ----
 tracker/storage/map/memory.go | 3 +++
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/tracker/storage/database.go b/tracker/storage/database.go
index b0d7819..0048a1c 100644
--- a/tracker/storage/database.go
+++ b/tracker/storage/database.go
@@ -28,10 +28,6 @@ func Open() (Database, error) {
 		return nil, errors.Wrap(err, "failed to init storage driver")
 	}
 
-	if err := driver.db.SyncExpvars(); err != nil {
-		return nil, errors.Wrap(err, "failed to sync expvars on storage driver")
-	}
-
 	return driver.db, nil
 }
 
diff --git a/tracker/storage/map/memory.go b/tracker/storage/map/memory.go
index 3552172..825eca5 100644
--- a/tracker/storage/map/memory.go
+++ b/tracker/storage/map/memory.go
@@ -45,6 +45,9 @@ func (db *Memory) Init(backup storage.Backup) error {
 	if err := db.backup.Load(); err != nil {
 		return errors.Wrap(err, "failed to load backup")
 	}
+	if err := db.SyncExpvars(); err != nil {
+		return errors.Wrap(err, "failed to sync expvars")
+	}
 
 	if config.Config.DB.Backup.Frequency > 0 {
 		go utils.RunOn(config.Config.DB.Backup.Frequency, func() {
-- 
2.43.0


From 3fbe3486a6899dec30f1504f47022024333a912c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:54 +0000
Subject: [PATCH 16/27] fix: don't drop an exit signal received during a save

---
 tracker/signalhandler.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/tracker/signalhandler.go b/tracker/signalhandler.go
index 804f98f..edba8c8 100644
--- a/tracker/signalhandler.go
+++ b/tracker/signalhandler.go
@@ -19,11 +19,18 @@ var SigStop = os.Interrupt
 const exitSuccess = 0
 
 func signalHandler(peerdb storage.Database, udptracker *udp.UDPTracker, httptracker *http.HTTPTracker) {
-	signalChannel := make(chan os.Signal, 1)
-	signal.Notify(signalChannel, os.Interrupt, syscall.SIGTERM, syscall.SIGUSR1)
+	// separate channels so that save signals arriving during a save can't displace an exit signal
+	exitChannel := make(chan os.Signal, 1)
+	signal.Notify(exitChannel, os.Interrupt, syscall.SIGTERM)
+	saveChannel := make(chan os.Signal, 1)
+	signal.Notify(saveChannel, syscall.SIGUSR1)
 
 	for {
-		sig := <-signalChannel
+		var sig os.Signal
+		select {
+		case sig = <-exitChannel:
+		case sig = <-saveChannel:
+		}
 
 		switch sig {
 		case os.Interrupt, syscall.SIGTERM: // Exit
-- 
2.43.0


From 077eec035bc9100015dcc5909a1347a412fa5867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:14 +0000
Subject: [PATCH 17/27] fix: refuse UDP actions beyond the low byte

---
 tracker/udp/udptracker.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tracker/udp/udptracker.go b/tracker/udp/udptracker.go
index 8952acc..9b095b7 100644
--- a/tracker/udp/udptracker.go
+++ b/tracker/udp/udptracker.go
@@ -131,7 +131,7 @@ func (u *UDPTracker) WriteConns() error {
 func (u *UDPTracker) process(data []byte, remote *net.UDPAddr) {
 	stats.Hits.Add(1)
 
-	action := protocol.Action(data[11])
+	action := protocol.Action(binary.BigEndian.Uint32(data[8:12]))
 	txid := int32(binary.BigEndian.Uint32(data[12:16]))
 
 	addr, ok := netip.AddrFromSlice(remote.IP)
@@ -141,8 +141,8 @@ func (u *UDPTracker) process(data []byte, remote *net.UDPAddr) {
 	addr = addr.Unmap() // use ipv4 instead of ipv6 mapped ipv4
 	addrPort := netip.AddrPortFrom(addr, uint16(remote.Port))
 
-	if action > protocol.ActionHeartbeat {
-		msg := u.newClientError("bad action", txid, cerrFields{"action": data[11], "addrPort": addrPort})
+	if action < protocol.ActionConnect || action > protocol.ActionHeartbeat {
+		msg := u.newClientError("bad action", txid, cerrFields{"action": action, "addrPort": addrPort})
 		u.sock.WriteToUDP(msg, remote)
 		return
 	}
-- 
2.43.0


From a4cb867bac16e034f58a67a109aa6910fb5067ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:53 +0000
Subject: [PATCH 18/27] fix: catch signals before the tracker begins to serve

---
 tracker/signalhandler.go | 11 ++++++++---
 tracker/tracker.go       |  3 ++-
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/tracker/signalhandler.go b/tracker/signalhandler.go
index edba8c8..df892ae 100644
--- a/tracker/signalhandler.go
+++ b/tracker/signalhandler.go
@@ -18,13 +18,18 @@ var SigStop = os.Interrupt
 
 const exitSuccess = 0
 
-func signalHandler(peerdb storage.Database, udptracker *udp.UDPTracker, httptracker *http.HTTPTracker) {
+// notifySignals begins to catch the signals which signalHandler handles.
+// It must be called before the tracker begins to serve, so that no signal sent to a serving tracker is missed.
+func notifySignals() (exitChannel chan os.Signal, saveChannel chan os.Signal) {
 	// separate channels so that save signals arriving during a save can't displace an exit signal
-	exitChannel := make(chan os.Signal, 1)
+	exitChannel = make(chan os.Signal, 1)
 	signal.Notify(exitChannel, os.Interrupt, syscall.SIGTERM)
-	saveChannel := make(chan os.Signal, 1)
+	saveChannel = make(chan os.Signal, 1)
 	signal.Notify(saveChannel, syscall.SIGUSR1)
+	return
+}
 
+func signalHandler(peerdb storage.Database, udptracker *udp.UDPTracker, httptracker *http.HTTPTracker, exitChannel, saveChannel chan os.Signal) {
 	for {
 		var sig os.Signal
 		select {
diff --git a/tracker/tracker.go b/tracker/tracker.go
index dd14b4c..893eb8b 100644
--- a/tracker/tracker.go
+++ b/tracker/tracker.go
@@ -55,7 +55,8 @@ func Run() {
 	}
 
 	// run signal handler
-	go signalHandler(peerdb, &udptracker, &httptracker)
+	exitChannel, saveChannel := notifySignals()
+	go signalHandler(peerdb, &udptracker, &httptracker, exitChannel, saveChannel)
 
 	// run pprof server
 	if config.Config.Debug.Pprof != 0 {
-- 
2.43.0


From 3b11b731c031d8b6a0016131b07a9e22ebafc0ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:06 +0000
Subject: [PATCH 19/27] fix: don't take zero or a negative number for a process
 ID

---
 controller/pidfile.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/controller/pidfile.go b/controller/pidfile.go
index d148b37..33cce8e 100644
--- a/controller/pidfile.go
+++ b/controller/pidfile.go
@@ -39,7 +39,7 @@ func (pidFile *ProcessIDFile) Read() (int, error) {
 	}
 
 	processID, err := strconv.Atoi(string(contents))
-	if err != nil {
+	if err != nil || processID <= 0 {
 		return ProcessIDFailed, ErrParseFailed
 	}
 
-- 
2.43.0


From 50ea8927885dc1260b276f74bdaff970fde705d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:10 +0000
Subject: [PATCH 20/27] fix: do not keep the zone of a link-local HTTP client's
 address

---
 tracker/http/worker.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tracker/http/worker.go b/tracker/http/worker.go
index f656537..90602e5 100644
--- a/tracker/http/worker.go
+++ b/tracker/http/worker.go
@@ -134,7 +134,8 @@ func (w *workers) work() {
 				break
 			}
 
-			w.tracker.announce(conn, &v, ip.Unmap())
+			// the zone of a link-local address is local to this host
+			w.tracker.announce(conn, &v, ip.Unmap().WithZone(""))
 		case "/scrape":
 			var count int
 			for i := 0; i < len(p.Params); i++ {
-- 
2.43.0


From 20d675384208c7f3657a91d956bdf416e386f6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:14 +0000
Subject: [PATCH 21/27] fix: handle signals only once everything is loaded

A save signal that arrived while the UDP connections were being loaded saved
them half loaded: the saved connection IDs were lost, or the tracker crashed on
concurrent map access.
---
 tracker/tracker.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tracker/tracker.go b/tracker/tracker.go
index 893eb8b..b014fb3 100644
--- a/tracker/tracker.go
+++ b/tracker/tracker.go
@@ -54,9 +54,8 @@ func Run() {
 		config.Logger.Info("Initialized storage")
 	}
 
-	// run signal handler
+	// signals caught from here on are handled once everything is loaded
 	exitChannel, saveChannel := notifySignals()
-	go signalHandler(peerdb, &udptracker, &httptracker, exitChannel, saveChannel)
 
 	// run pprof server
 	if config.Config.Debug.Pprof != 0 {
@@ -132,6 +131,9 @@ func Run() {
 		}()
 	}
 
+	// run signal handler
+	go signalHandler(peerdb, &udptracker, &httptracker, exitChannel, saveChannel)
+
 	if config.Config.ExpvarInterval > 0 {
 		stats.Publish(peerdb, func() int64 {
 			return int64(udptracker.Connections())
-- 
2.43.0


From 1a42a1a974d9a82d580d32a0d465f28d6098d069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:17:12 +0000
Subject: [PATCH 22/27] fix: HTTP server can listen on an IPv6 address

---
 config/config.go            | 7 +++++++
 tracker/http/httptracker.go | 3 +--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/config/config.go b/config/config.go
index 14a1b45..788e6d0 100644
--- a/config/config.go
+++ b/config/config.go
@@ -1,6 +1,7 @@
 package config
 
 import (
+	"net"
 	"os"
 	"strconv"
 	"strings"
@@ -69,6 +70,12 @@ type Configuration struct {
 // Loaded returns true if the config was successfully parsed and loaded.
 func (config *Configuration) Loaded() bool { return config.loaded }
 
+// HTTPAddress returns the address the HTTP server binds to.
+func (config *Configuration) HTTPAddress() string {
+	// IPv6 addresses may be given with or without brackets
+	return net.JoinHostPort(strings.Trim(config.HTTP.IP, "[]"), strconv.Itoa(config.HTTP.Port))
+}
+
 // SetLogLevel sets the desired loglevel in the in memory configuration and logger
 func (conf *Configuration) SetLogLevel(level LogLevel) {
 	conf.LogLevel = level
diff --git a/tracker/http/httptracker.go b/tracker/http/httptracker.go
index 84f3014..45705d0 100644
--- a/tracker/http/httptracker.go
+++ b/tracker/http/httptracker.go
@@ -1,7 +1,6 @@
 package http
 
 import (
-	"fmt"
 	"net"
 
 	"github.com/crimist/trakx/config"
@@ -27,7 +26,7 @@ func (t *HTTPTracker) Init(peerdb storage.Database) {
 
 // Serve begins listening and serving clients.
 func (t *HTTPTracker) Serve() error {
-	ln, err := net.Listen("tcp", fmt.Sprintf("%v:%v", config.Config.HTTP.IP, config.Config.HTTP.Port))
+	ln, err := net.Listen("tcp", config.Config.HTTPAddress())
 	if err != nil {
 		return errors.Wrap(err, "Failed to open TCP listen socket")
 	}
-- 
2.43.0


From 5f5bdb4465f8ca1539d200afb912fe37ea18911f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:17:12 +0000
Subject: [PATCH 23/27] fix: info mode listens on the configured address only

---
 tracker/tracker.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/tracker/tracker.go b/tracker/tracker.go
index b014fb3..0833e7c 100644
--- a/tracker/tracker.go
+++ b/tracker/tracker.go
@@ -2,7 +2,6 @@ package tracker
 
 import (
 	"expvar"
-	"fmt"
 	"math/rand"
 	gohttp "net/http"
 	"time"
@@ -103,7 +102,7 @@ func Run() {
 		}
 
 		server := gohttp.Server{
-			Addr:         fmt.Sprintf(":%d", config.Config.HTTP.Port),
+			Addr:         config.Config.HTTPAddress(),
 			Handler:      mux,
 			ReadTimeout:  5 * time.Second,
 			WriteTimeout: 7 * time.Second,
-- 
2.43.0


From 97c096b3cef12c4257ee575a23ab05649593c7b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:17:13 +0000
Subject: [PATCH 24/27] fix: too short UDP messages are refused with an error

---
 tracker/udp/protocol/announce.go | 5 ++++-
 tracker/udp/protocol/error.go    | 3 +++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/tracker/udp/protocol/announce.go b/tracker/udp/protocol/announce.go
index ecda170..39b82f7 100644
--- a/tracker/udp/protocol/announce.go
+++ b/tracker/udp/protocol/announce.go
@@ -39,7 +39,7 @@ func (a *Announce) Marshall() ([]byte, error) {
 // Unmarshall decodes a byte slice into an Announce.
 func (a *Announce) Unmarshall(data []byte) error {
 	if err := binary.Read(bytes.NewReader(data), binary.BigEndian, a); err != nil {
-		errors.Wrap(err, "failed to decode announce")
+		return errors.Wrap(err, "failed to decode announce")
 	}
 
 	return nil
@@ -83,6 +83,9 @@ func (ar *AnnounceResp) Marshall() ([]byte, error) {
 
 // Unmarshall decodes a byte slice into an AnnounceResp.
 func (ar *AnnounceResp) Unmarshall(data []byte) error {
+	if len(data) < 20 {
+		return errors.New("failed to decode announce response: too short")
+	}
 	ar.Peers = make([]byte, (len(data) - 20))
 
 	reader := bytes.NewReader(data)
diff --git a/tracker/udp/protocol/error.go b/tracker/udp/protocol/error.go
index b533cc7..9e7461d 100644
--- a/tracker/udp/protocol/error.go
+++ b/tracker/udp/protocol/error.go
@@ -33,6 +33,9 @@ func (e *Error) Marshall() ([]byte, error) {
 
 // Unmarshall decodes a byte slice into an Error.
 func (e *Error) Unmarshall(data []byte) error {
+	if len(data) < 8 {
+		return errors.New("failed to decode error: too short")
+	}
 	e.ErrorString = make([]uint8, (len(data) - 8))
 	reader := bytes.NewReader(data)
 
-- 
2.43.0


From 0085073df7175ffed740b7021738091429a44af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:17:15 +0000
Subject: [PATCH 25/27] fix: a value that can't be bencoded leaves the
 dictionary unchanged

---
 bencoding/dictionary.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/bencoding/dictionary.go b/bencoding/dictionary.go
index b0c0901..2237dd4 100644
--- a/bencoding/dictionary.go
+++ b/bencoding/dictionary.go
@@ -95,6 +95,8 @@ func (d *Dictionary) BytesliceSlice(key string, slice [][]byte) {
 // Any tries to write given type to dictionary. It returns an error if it is unabled to write the desired type to the dictionary.
 // Any performs far worse than specific type encoding functions and should be avoided when possible.
 func (d *Dictionary) Any(key string, v interface{}) error {
+	start := len(d.buf)
+
 	// Add the key
 	d.write(str(key))
 
@@ -113,7 +115,10 @@ func (d *Dictionary) Any(key string, v interface{}) error {
 	case map[string]interface{}:
 		dict := NewDictionary()
 		for k, v := range v {
-			dict.Any(k, v)
+			if err := dict.Any(k, v); err != nil {
+				d.buf = d.buf[:start] // don't leave a key without value
+				return err
+			}
 		}
 		d.writeBytes(dict.GetBytes())
 	case map[string]map[string]int32:
@@ -133,6 +138,7 @@ func (d *Dictionary) Any(key string, v interface{}) error {
 	case uint, uint8, uint16, uint32, uint64:
 		d.write(integer(v))
 	default:
+		d.buf = d.buf[:start] // don't leave a key without value
 		return errors.New("failed to write value to dictionary: invalid type")
 	}
 
-- 
2.43.0


From ccbdf659118560c891ab626a615e2552dac317d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:34:44 +0000
Subject: [PATCH 26/27] fix: the default number of peers is capped by the limit
 too

---
 tracker/http/announce.go | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/tracker/http/announce.go b/tracker/http/announce.go
index 54cc543..d1de2a9 100644
--- a/tracker/http/announce.go
+++ b/tracker/http/announce.go
@@ -67,14 +67,12 @@ func (t *HTTPTracker) announce(conn net.Conn, vals *announceParams, ip netip.Add
 			t.clientError(conn, "Invalid numwant")
 			return
 		}
-		numwantUint := uint(numwantInt)
+		numwant = uint(numwantInt)
+	}
 
-		// if numwant is within our limit than listen to the client
-		if numwantUint <= config.Config.Numwant.Limit {
-			numwant = numwantUint
-		} else {
-			numwant = config.Config.Numwant.Limit
-		}
+	// never send more peers than our limit, not even by default
+	if numwant > config.Config.Numwant.Limit {
+		numwant = config.Config.Numwant.Limit
 	}
 
 	peerComplete := false
-- 
2.43.0


From 4e0ae2bea188acff722966686a1e417d9cacdfb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:34:45 +0000
Subject: [PATCH 27/27] fix: udp peer lists are cut to what fits in a datagram

---
 tracker/udp/announce.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/tracker/udp/announce.go b/tracker/udp/announce.go
index 73febd7..fad2c4c 100644
--- a/tracker/udp/announce.go
+++ b/tracker/udp/announce.go
@@ -11,6 +11,17 @@ import (
 	"github.com/crimist/trakx/tracker/udp/protocol"
 )
 
+// largest peer list that fits in an announce response: 65535 bytes less the IP, UDP and announce response headers
+const peersSizeMax = 65535 - 20 - 8 - 20
+
+// capPeers cuts the packed peer list down to the entries which fit in a datagram
+func capPeers(peers []byte, entrySize int) []byte {
+	if size := peersSizeMax / entrySize * entrySize; len(peers) > size {
+		return peers[:size]
+	}
+	return peers
+}
+
 func (u *UDPTracker) announce(announce *protocol.Announce, remote *net.UDPAddr, addrPort netip.AddrPort) {
 	stats.Announces.Add(1)
 
@@ -71,9 +82,9 @@ func (u *UDPTracker) announce(announce *protocol.Announce, remote *net.UDPAddr,
 	}
 
 	if addrPort.Addr().Is4() {
-		resp.Peers = peers4
+		resp.Peers = capPeers(peers4, 6)
 	} else {
-		resp.Peers = peers6
+		resp.Peers = capPeers(peers6, 18)
 	}
 
 	respBytes, err := resp.Marshall()
-- 
2.43.0

