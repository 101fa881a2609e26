From 0d50df1c85e23be7542752f5eed5edacb38daa9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:19 +0000
Subject: [PATCH 01/42] fix: bencode decoders must not panic on truncated or
 oversized input

---
 misc/beancode.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/misc/beancode.go b/misc/beancode.go
index 0e59064..da03141 100644
--- a/misc/beancode.go
+++ b/misc/beancode.go
@@ -45,12 +45,12 @@ func innerDecodeInteger(src string, start int) (int, int, error) {
 		}
 
 		// pass 00 02
-		if src[i-1] == 'i' && src[i] == '0' && src[i+1] != 'e' {
+		if i == start+1 && src[i] == '0' && i+1 < len(src) && src[i+1] != 'e' {
 			return 0, -1, WrongDecodeParamErr
 		}
 	}
 
-	if i > start && src[i] == 'e' {
+	if i > start && i < len(src) && src[i] == 'e' {
 		result, err := strconv.Atoi(src[start+1 : i])
 		if err != nil {
 			return 0, -1, WrongDecodeParamErr
@@ -80,7 +80,7 @@ func DecodeString(src string) (string, error) {
 		return "", WrongDecodeParamErr
 	}
 
-	if len(subs[1]) != slen {
+	if len(subs) < 2 || len(subs[1]) != slen {
 		return "", WrongDecodeParamErr
 	}
 
@@ -98,11 +98,12 @@ func innerDecodeString(src string, start int) (string, int, error) {
 		return "", -1, err
 	}
 
-	start = idx + slen + 1
-
-	if start >= len(src) {
+	// compare without adding, the declared length may be huge
+	if slen < 0 || slen > len(src)-idx-1 {
 		return "", -1, WrongDecodeParamErr
 	}
+
+	start = idx + slen + 1
 	return src[idx+1 : start], start, nil
 }
 
@@ -191,6 +192,10 @@ func innerDecodeSlice(src string, start int) (List, int, error) {
 }
 
 func decodeItem(src string, i int) (interface{}, int, error) {
+	if i >= len(src) {
+		return nil, -1, WrongDecodeParamErr
+	}
+
 	if src[i] == 'i' {
 		return innerDecodeInteger(src, i)
 	} else if src[i] == 'l' {
-- 
2.43.0


From eabe44f36f2d753d354abed2ccdb4d413928533c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:19 +0000
Subject: [PATCH 02/42] fix: bencode lists and dictionaries must be closed

---
 misc/beancode.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/misc/beancode.go b/misc/beancode.go
index da03141..921632d 100644
--- a/misc/beancode.go
+++ b/misc/beancode.go
@@ -188,6 +188,11 @@ func innerDecodeSlice(src string, start int) (List, int, error) {
 		result = append(result, tmp)
 		i = nextIdx
 	}
+
+	// the closing e is missing
+	if i >= len(src) {
+		return nil, -1, WrongDecodeParamErr
+	}
 	return result, i + 1, nil
 }
 
@@ -300,6 +305,11 @@ func innerDecodeDict(src string, start int) (Dict, int, error) {
 		i = next
 	}
 
+	// the closing e is missing
+	if i >= len(src) {
+		return nil, -1, WrongDecodeParamErr
+	}
+
 	return result, i + 1, nil
 }
 
-- 
2.43.0


From 457d08324890d74536249d9825537a6fd22b6f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:19 +0000
Subject: [PATCH 03/42] fix: DecodeDict must report trailing bytes as an error

---
 misc/beancode.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/misc/beancode.go b/misc/beancode.go
index 921632d..73d14d7 100644
--- a/misc/beancode.go
+++ b/misc/beancode.go
@@ -249,10 +249,14 @@ func DecodeDict(src string) (Dict, error) {
 
 	result, next, err := innerDecodeDict(src, 0)
 
-	if next < len(src) || err != nil {
+	if err != nil {
 		return nil, err
 	}
 
+	if next < len(src) {
+		return nil, WrongDecodeParamErr
+	}
+
 	return result, nil
 }
 
-- 
2.43.0


From c7b41edfa513cb9cb7a70dd7c523918d2928e46a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:19 +0000
Subject: [PATCH 04/42] fix: DecodeString must accept strings holding colons

---
 misc/beancode.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/misc/beancode.go b/misc/beancode.go
index 73d14d7..62398ba 100644
--- a/misc/beancode.go
+++ b/misc/beancode.go
@@ -70,7 +70,8 @@ func DecodeString(src string) (string, error) {
 	if len(src) < 2 {
 		return "", WrongDecodeParamErr
 	}
-	subs := strings.Split(src, ":")
+	// the content may hold further colons
+	subs := strings.SplitN(src, ":", 2)
 	if len(subs) < 1 || len(subs) > 2 {
 		return "", WrongDecodeParamErr
 	}
-- 
2.43.0


From ede29d1ec8a6fb9c6ef29c0bd21faa516640844c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:19 +0000
Subject: [PATCH 05/42] fix: bencode numbers must not carry a plus sign

---
 misc/beancode.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/misc/beancode.go b/misc/beancode.go
index 62398ba..63e9555 100644
--- a/misc/beancode.go
+++ b/misc/beancode.go
@@ -39,6 +39,11 @@ func innerDecodeInteger(src string, start int) (int, int, error) {
 
 	i := start + 1
 	for ; i < len(src) && src[i] != 'e'; i++ {
+		// Atoi takes a plus sign, bencode has none
+		if src[i] == '+' {
+			return 0, -1, WrongDecodeParamErr
+		}
+
 		// pass -0 -02
 		if src[i-1] == '-' && src[i] == '0' {
 			return 0, -1, WrongDecodeParamErr
@@ -76,6 +81,11 @@ func DecodeString(src string) (string, error) {
 		return "", WrongDecodeParamErr
 	}
 
+	// Atoi takes a sign, a length has none
+	if src[0] == '+' || src[0] == '-' {
+		return "", WrongDecodeParamErr
+	}
+
 	slen, err := strconv.Atoi(subs[0])
 	if err != nil {
 		return "", WrongDecodeParamErr
-- 
2.43.0


From 48c00e1275a2e7bc56aa69066b95de69c911abea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:19 +0000
Subject: [PATCH 06/42] fix: the bencode encoder must refuse nil and named
 types, not panic

---
 misc/beancode.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/misc/beancode.go b/misc/beancode.go
index 63e9555..5147b97 100644
--- a/misc/beancode.go
+++ b/misc/beancode.go
@@ -137,14 +137,26 @@ func EncodeSlice(src List) (string, error) {
 }
 
 func encodeItem(item interface{}) (string, error) {
+	if item == nil {
+		return "", WrongDecodeParamErr
+	}
+
 	t := reflect.TypeOf(item)
 	var err error
 	var tmp string
 	switch t.Kind() {
 	case reflect.Int:
-		tmp, err = EncodeInteger(item.(int))
+		if num, ok := item.(int); ok {
+			tmp, err = EncodeInteger(num)
+		} else {
+			err = WrongDecodeParamErr
+		}
 	case reflect.String:
-		tmp, err = EncodeString(item.(string))
+		if str, ok := item.(string); ok {
+			tmp, err = EncodeString(str)
+		} else {
+			err = WrongDecodeParamErr
+		}
 	case reflect.Slice:
 		if ls, ok := item.(List); ok {
 			tmp, err = EncodeSlice(ls)
-- 
2.43.0


From 2302855be7e4b315d019d6e5de9e50bfa02ae887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:56 +0000
Subject: [PATCH 07/42] fix: GetValOrDefault must return the default of a
 missing key

---
 misc/types.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/misc/types.go b/misc/types.go
index 2ac73b6..348b0c8 100644
--- a/misc/types.go
+++ b/misc/types.go
@@ -61,11 +61,11 @@ func (d *Dict) GetVal(key string) interface{} {
 }
 
 func (d *Dict) GetValOrDefault(key string, val interface{}) interface{} {
-	val, exist := (*d)[key]
+	stored, exist := (*d)[key]
 	if !exist {
 		return val
 	}
-	return val
+	return stored
 }
 
 func (d *Dict) Exist(key string) bool {
-- 
2.43.0


From ce407597ced47db6b888ae37d32892fcd506359c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:56 +0000
Subject: [PATCH 08/42] fix: a List index out of range is a protocol error, not
 a runtime panic

---
 misc/types.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/misc/types.go b/misc/types.go
index 348b0c8..7bb464d 100644
--- a/misc/types.go
+++ b/misc/types.go
@@ -76,6 +76,9 @@ func (d *Dict) Exist(key string) bool {
 type List []interface{}
 
 func (l *List) GetVal(index int) interface{} {
+	if !l.Exist(index) {
+		PanicBizErr("cannot find val in List", index)
+	}
 	return (*l)[index]
 }
 
@@ -112,7 +115,7 @@ func (l *List) GetDict(index int) Dict {
 }
 
 func (l *List) Exist(index int) bool {
-	return len(*l) > index
+	return index >= 0 && len(*l) > index
 }
 
 func (l *List) ContainsString(target string) bool {
-- 
2.43.0


From 0ca41039405d2891ca1c7692bd54088cfc9dc2dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:56 +0000
Subject: [PATCH 09/42] fix: an error shows the stack only when it was made to

---
 misc/errors.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/misc/errors.go b/misc/errors.go
index f7fe989..8361de7 100644
--- a/misc/errors.go
+++ b/misc/errors.go
@@ -30,7 +30,9 @@ func (d *Error) Error() string {
 			errString += ToString(val) + "|"
 		}
 	}
-	errString += "\r\nstacks:\r\n" + Bytes2Str(debug.Stack())
+	if d.printStack {
+		errString += "\r\nstacks:\r\n" + Bytes2Str(debug.Stack())
+	}
 	return errString
 }
 
-- 
2.43.0


From dd946c91cb9590959be9683ca71fc52fef667d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:21 +0000
Subject: [PATCH 10/42] fix: SyncMap.Del must not read the map without the lock

---
 misc/syncmap.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/misc/syncmap.go b/misc/syncmap.go
index 300cf07..dfe7183 100644
--- a/misc/syncmap.go
+++ b/misc/syncmap.go
@@ -24,11 +24,7 @@ func (m *SyncMap) Get(key string) (interface{}, bool) {
 	return handlerFunc, ok
 }
 
-// double check delete
 func (m *SyncMap) Del(txId string) {
-	if _, ok := m.mapping[txId]; !ok {
-		return
-	}
 	defer m.Unlock()
 	m.Lock()
 	if _, ok := m.mapping[txId]; !ok {
-- 
2.43.0


From c2960eb858d76dae5c4a41771dd36f78a425d72a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:28 +0000
Subject: [PATCH 11/42] fix: work pool workers must end at shutdown, after the
 accepted tasks

---
 misc/workpool.go | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/misc/workpool.go b/misc/workpool.go
index 12b5d4d..012d9b7 100644
--- a/misc/workpool.go
+++ b/misc/workpool.go
@@ -32,17 +32,29 @@ func (pool *WorkPool) init() {
 }
 
 func (pool *WorkPool) workerLoop() {
+	// not running exit
+	defer pool.wg.Done()
 	for {
 		select {
+		case worker := <-pool.queue:
+			worker()
 		case <-pool.shutdowned:
-			break
+			pool.runQueued()
+			return
+		}
+	}
+}
+
+// runQueued runs the tasks which were accepted before the shutdown.
+func (pool *WorkPool) runQueued() {
+	for {
+		select {
+		case worker := <-pool.queue:
+			worker()
 		default:
+			return
 		}
-		worker := <-pool.queue
-		worker()
 	}
-	// not running exit
-	pool.wg.Done()
 }
 
 func (pool *WorkPool) AsyncSubmit(worker AsyncWorkFunc) {
-- 
2.43.0


From 2ded227ad8eb25db867df9cbce7a04a669ddcc2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:28 +0000
Subject: [PATCH 12/42] fix: concurrent WorkPool.Shutdown calls must not close
 the channel twice

---
 misc/workpool.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/misc/workpool.go b/misc/workpool.go
index 012d9b7..70f00aa 100644
--- a/misc/workpool.go
+++ b/misc/workpool.go
@@ -17,6 +17,7 @@ type WorkPool struct {
 	queue      chan AsyncWorkFunc
 	wg         sync.WaitGroup
 	status     atomic.Value
+	statusLock sync.Mutex
 	shutdowned chan bool
 	ctx        context.Context
 }
@@ -65,11 +66,14 @@ func (pool *WorkPool) AsyncSubmit(worker AsyncWorkFunc) {
 }
 
 func (pool *WorkPool) Shutdown(timeout time.Duration) {
+	pool.statusLock.Lock()
 	if Running != pool.Status() {
+		pool.statusLock.Unlock()
 		return
 	}
-	workPoolLogger.Trace("strating shutdown", Dict{"name": pool.name, "timeout": timeout.String()})
 	pool.status.Store(Shutdowning)
+	pool.statusLock.Unlock()
+	workPoolLogger.Trace("strating shutdown", Dict{"name": pool.name, "timeout": timeout.String()})
 	// broadcast shutdown
 	close(pool.shutdowned)
 	select {
-- 
2.43.0


From 03092c71b3c967353250d6a5dbec1b757626ea96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:32 +0000
Subject: [PATCH 13/42] fix: a console logger must panic on Panic at every
 level

---
 misc/logger.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/misc/logger.go b/misc/logger.go
index 6a54e24..760bc95 100644
--- a/misc/logger.go
+++ b/misc/logger.go
@@ -182,10 +182,9 @@ func (c *consoleLogger) Error(msg string, ctx Dict) {
 }
 
 func (c *consoleLogger) Panic(msg string, ctx Dict) {
-	if c.level > PANIC {
-		return
+	if c.level <= PANIC {
+		c.print("Panic", msg, ctx)
 	}
-	c.print("Panic", msg, ctx)
 	panic(msg)
 }
 
-- 
2.43.0


From edf91c5b99cc23de1b7e1c7efa440a5c0b113f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:06 +0000
Subject: [PATCH 14/42] fix: ResetConfig must drop the sections cached before

---
 config/config.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/config/config.go b/config/config.go
index c151eb2..433ce8e 100644
--- a/config/config.go
+++ b/config/config.go
@@ -83,6 +83,8 @@ func ResetConfig() {
 		}
 		configLogger.Trace("write default config success", misc.Dict{"path": viper.ConfigFileUsed(), "defaultPath": FileAbsPath})
 	}
+	// drop what was cached from the configuration read before
+	configMap = make(misc.Dict, 16)
 	configLogger.Trace("config values", viper.AllSettings())
 }
 
-- 
2.43.0


From 62a685909b904ed9bdc23cac92beadbf2564bc1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:06 +0000
Subject: [PATCH 15/42] fix: settings missing from a configured section must
 keep their defaults

---
 config/config.go | 48 +++++++++++++++++++++++++++++++++++-------------
 1 file changed, 35 insertions(+), 13 deletions(-)

diff --git a/config/config.go b/config/config.go
index 433ce8e..6585b02 100644
--- a/config/config.go
+++ b/config/config.go
@@ -47,24 +47,40 @@ func init() {
 	viper.AddConfigPath(configPath)
 	viper.SetConfigType(configType)
 	viper.SetConfigName(configName)
-	viper.SetDefault(dhtConfigKey, &dhtConfig{
+	viper.SetDefault(dhtConfigKey, defaultDhtConfig())
+	viper.SetDefault(fetchTorrentConfigKey, defaultFetchTorrentConfig())
+	viper.SetDefault(pprofConfigKey, defaultPprofConfig())
+	viper.SetDefault(loggerConfigKey, defaultLoggerConfig())
+	ResetConfig()
+}
+
+func defaultDhtConfig() *dhtConfig {
+	return &dhtConfig{
 		Port:         21000,
 		WorkPoolSize: 2000,
 		BootstrapNodes: []string{
 			"87.98.162.88:6881",
 		},
-	})
-	viper.SetDefault(fetchTorrentConfigKey, &fetchTorrentConfig{
+	}
+}
+
+func defaultFetchTorrentConfig() *fetchTorrentConfig {
+	return &fetchTorrentConfig{
 		InfoHashQueueSize: 300000,
 		WorkPoolSize:      500,
-	})
-	viper.SetDefault(pprofConfigKey, &pprofConfig{
+	}
+}
+
+func defaultPprofConfig() *pprofConfig {
+	return &pprofConfig{
 		NeedRun: true,
-	})
-	viper.SetDefault(loggerConfigKey, &loggerConfig{
+	}
+}
+
+func defaultLoggerConfig() *loggerConfig {
+	return &loggerConfig{
 		Level: "Info",
-	})
-	ResetConfig()
+	}
 }
 
 func ResetConfig() {
@@ -89,21 +105,27 @@ func ResetConfig() {
 }
 
 func DhtConfig() *dhtConfig {
-	return getSubConfig(dhtConfigKey, new(dhtConfig)).(*dhtConfig)
+	val := defaultDhtConfig()
+	if viper.IsSet(dhtConfigKey + ".BootstrapNodes") {
+		// a configured list replaces the default one
+		val.BootstrapNodes = nil
+	}
+	return getSubConfig(dhtConfigKey, val).(*dhtConfig)
 }
 
 func FetchTorrentConfig() *fetchTorrentConfig {
-	return getSubConfig(fetchTorrentConfigKey, new(fetchTorrentConfig)).(*fetchTorrentConfig)
+	return getSubConfig(fetchTorrentConfigKey, defaultFetchTorrentConfig()).(*fetchTorrentConfig)
 }
 
 func PProfConfig() *pprofConfig {
-	return getSubConfig(pprofConfigKey, new(pprofConfig)).(*pprofConfig)
+	return getSubConfig(pprofConfigKey, defaultPprofConfig()).(*pprofConfig)
 }
 
 func LoggerConfig() *loggerConfig {
-	return getSubConfig(loggerConfigKey, new(loggerConfig)).(*loggerConfig)
+	return getSubConfig(loggerConfigKey, defaultLoggerConfig()).(*loggerConfig)
 }
 
+// getSubConfig reads a section into valPtr, which holds its defaults.
 func getSubConfig(key string, valPtr interface{}) interface{} {
 
 	if val, ok := configMap[key]; ok {
-- 
2.43.0


From 852a415f95d990080828308bfed48c74f9435502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:11 +0000
Subject: [PATCH 16/42] fix: a response must run the handler of its request
 only once

---
 dht/krpc/server.go | 3 ++-
 misc/syncmap.go    | 9 +++++++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/dht/krpc/server.go b/dht/krpc/server.go
index f5d0a9f..93cba88 100644
--- a/dht/krpc/server.go
+++ b/dht/krpc/server.go
@@ -159,7 +159,8 @@ func (s *RpcServer) responseHandle(addr *net.UDPAddr, dict misc.Dict) {
 	body := dict.GetDict("r")
 	nodeId := body.GetString("id")
 	serverLogger.Info("response handle", misc.Dict{"txId": txId, "nodeId": hex.EncodeToString([]byte(nodeId))})
-	handler, exist := s.requestMapping.Get(txId)
+	// a request is answered once
+	handler, exist := s.requestMapping.Take(txId)
 
 	if !exist {
 		serverLogger.Error("cannot match request", misc.Dict{"txId": txId, "nodeId": nodeId})
diff --git a/misc/syncmap.go b/misc/syncmap.go
index dfe7183..6102220 100644
--- a/misc/syncmap.go
+++ b/misc/syncmap.go
@@ -24,6 +24,15 @@ func (m *SyncMap) Get(key string) (interface{}, bool) {
 	return handlerFunc, ok
 }
 
+// Take removes a key and returns its value, so that one caller gets it.
+func (m *SyncMap) Take(key string) (interface{}, bool) {
+	defer m.Unlock()
+	m.Lock()
+	val, ok := m.mapping[key]
+	delete(m.mapping, key)
+	return val, ok
+}
+
 func (m *SyncMap) Del(txId string) {
 	defer m.Unlock()
 	m.Lock()
-- 
2.43.0


From 79fd5f8cc5d4a6ff91ee3aa33af2c18ce4cfc81a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:11 +0000
Subject: [PATCH 17/42] fix: a query whose handler fails must get an error
 reply

---
 dht/krpc/server.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/dht/krpc/server.go b/dht/krpc/server.go
index 93cba88..110b67f 100644
--- a/dht/krpc/server.go
+++ b/dht/krpc/server.go
@@ -133,6 +133,10 @@ func (s *RpcServer) recvPacketHandle(packet *RecvPacket) {
 		bytes, err := misc.EncodeDict(ret.RawData())
 		if err != nil {
 			serverLogger.Error("encode response err", misc.Dict{"from": packet.Addr.String(), "dict": ret.String()})
+			bytes, err = misc.EncodeDict(withServerErr(dict.GetString("t")).RawData())
+			if err != nil {
+				return
+			}
 		}
 		err = s.udpConn.SendPacket([]byte(bytes), packet.Addr)
 		serverLogger.Info(">>>  Bytes sended", misc.Dict{"to": packet.Addr.String(), "len": len(bytes)})
@@ -183,7 +187,8 @@ func (s *RpcServer) requestHandle(addr *net.UDPAddr, resp misc.Dict) (ret Respon
 			serverLogger.Error("request handle panic", misc.Dict{"err": err})
 			dhtError, ok := err.(*misc.Error)
 			if !ok {
-				panic(err)
+				ret = withServerErr(txId)
+				return
 			}
 			ret = WithParamErr(txId, dhtError.Error())
 		}
@@ -205,5 +210,13 @@ func (s *RpcServer) requestHandle(addr *net.UDPAddr, resp misc.Dict) (ret Respon
 		return WithParamErr(txId, "cannot handle not match handler")
 	}
 	handlerFunc := handler.(RpcHandlerFunc)
-	return s.doRequestHandle(req, handlerFunc, addr)
+	ret = s.doRequestHandle(req, handlerFunc, addr)
+	if ret == nil {
+		return withServerErr(txId)
+	}
+	return ret
+}
+
+func withServerErr(txId string) Response {
+	return WithErr(txId, int(misc.ServerErr), "server error")
 }
-- 
2.43.0


From e37c90c6a86decb795aaff93dc9cc2e439df535f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:11 +0000
Subject: [PATCH 18/42] fix: concurrent UdpServer.Close calls must close the
 socket once

---
 dht/krpc/udp.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dht/krpc/udp.go b/dht/krpc/udp.go
index ef97185..18677e5 100644
--- a/dht/krpc/udp.go
+++ b/dht/krpc/udp.go
@@ -28,11 +28,11 @@ type UdpServer struct {
 }
 
 func (s *UdpServer) Close() error {
+	defer s.Unlock()
+	s.Lock()
 	if s.closed.Load().(bool) {
 		return nil
 	}
-	defer s.Unlock()
-	s.Lock()
 	return s.close()
 }
 
-- 
2.43.0


From 50066eed703bf44a04de304e67e9fe4f78d18890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:11 +0000
Subject: [PATCH 19/42] fix: the receive loop must end at close even when
 nobody takes packets

---
 dht/krpc/udp.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/dht/krpc/udp.go b/dht/krpc/udp.go
index 18677e5..3c5df6e 100644
--- a/dht/krpc/udp.go
+++ b/dht/krpc/udp.go
@@ -25,6 +25,7 @@ type UdpServer struct {
 	conn   *net.UDPConn
 	recvq  chan *RecvPacket
 	closed *atomic.Value
+	done   chan struct{}
 }
 
 func (s *UdpServer) Close() error {
@@ -39,6 +40,7 @@ func (s *UdpServer) Close() error {
 func (s *UdpServer) close() error {
 	udpLogger.Trace("conn closing...", misc.Dict{"laddr": s.laddr})
 	s.closed.Store(true)
+	close(s.done)
 	if s.conn != nil {
 		return s.conn.Close()
 	}
@@ -87,6 +89,7 @@ func StartUdpServer(localAddr string) *UdpServer {
 		conn:   serverConn,
 		recvq:  make(chan *RecvPacket, RecvChanLen),
 		closed: &atomic.Value{},
+		done:   make(chan struct{}),
 	}
 	server.closed.Store(false)
 	go server.recvRoutiue()
@@ -102,6 +105,10 @@ func (s *UdpServer) recvRoutiue() {
 			continue
 		}
 		udpLogger.Info("<<< received Bytes", misc.Dict{"raddr": raddr.String(), "length": n})
-		s.recvq <- &RecvPacket{Addr: raddr, Bytes: buf[:n]}
+		select {
+		case s.recvq <- &RecvPacket{Addr: raddr, Bytes: buf[:n]}:
+		case <-s.done:
+			return
+		}
 	}
 }
-- 
2.43.0


From 415ecb0580dcbc446f21542f4d231e49b25bf427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:50 +0000
Subject: [PATCH 20/42] fix: adding a known node must not change the size of
 the route table

---
 dht/routetable.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dht/routetable.go b/dht/routetable.go
index 27613a1..7ae4651 100644
--- a/dht/routetable.go
+++ b/dht/routetable.go
@@ -165,7 +165,10 @@ func (t *RouteTable) addNode(node *NodeInfo, preLen int) error {
 		return errors.New("the bucket is full")
 	}
 
-	if !bucket.Exist(node) && !bucket.Add(node) {
+	if bucket.Exist(node) {
+		return nil
+	}
+	if !bucket.Add(node) {
 		// full bucket just ignore
 		rtableLogger.Info("the bucket has full", misc.Dict{"tableSize": t.size, "preLen": preLen})
 		return errors.New("the bucket is full")
-- 
2.43.0


From 7d1fbd0368f5b52b79119024e27997215abb444b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:50 +0000
Subject: [PATCH 21/42] fix: a node that found no room after a split must be
 reported as refused

---
 dht/routetable.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dht/routetable.go b/dht/routetable.go
index 7ae4651..b66e45d 100644
--- a/dht/routetable.go
+++ b/dht/routetable.go
@@ -198,7 +198,9 @@ func (t *RouteTable) addNodeWithsplitBucket(node *NodeInfo) error {
 	for _, n := range snodes {
 		t.addNode(n, t.solveMaxPreLen(n.Id))
 	}
-	t.addNode(node, t.solveMaxPreLen(node.Id))
+	if err := t.addNode(node, t.solveMaxPreLen(node.Id)); err != nil {
+		return err
+	}
 	if preSize+1 != t.nodeCount() {
 		rtableLogger.Error("the route table add fail", misc.Dict{"lastIndex": t.lastBucketIndex, "size": t.size})
 	}
-- 
2.43.0


From 3164e3b4514f7b14f2e513a6aee619139a213e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:50 +0000
Subject: [PATCH 22/42] fix: node ids are binary, letter case must not make
 them equal

---
 dht/node.go       | 2 +-
 dht/routetable.go | 3 +--
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/dht/node.go b/dht/node.go
index 2380dfe..3eb0720 100644
--- a/dht/node.go
+++ b/dht/node.go
@@ -50,7 +50,7 @@ func (n *NodeInfo) Equals(node *NodeInfo) bool {
 	if node == nil {
 		return false
 	}
-	if strings.EqualFold(n.Id, node.Id) && strings.EqualFold(n.Addr.String(), node.Addr.String()) {
+	if n.Id == node.Id && n.Addr.String() == node.Addr.String() {
 		return true
 	}
 	return false
diff --git a/dht/routetable.go b/dht/routetable.go
index b66e45d..babcc4d 100644
--- a/dht/routetable.go
+++ b/dht/routetable.go
@@ -4,7 +4,6 @@ import (
 	"errors"
 	"github.com/GalaIO/P2Pcrawler/misc"
 	"math/bits"
-	"strings"
 	"sync"
 )
 
@@ -116,7 +115,7 @@ func (t *RouteTable) Find(id string) *NodeInfo {
 	bucket := t.nodeMap[preLen]
 	nodes := bucket.All()
 	for _, n := range nodes {
-		if strings.EqualFold(n.Id, id) {
+		if n.Id == id {
 			return n
 		}
 	}
-- 
2.43.0


From e872a8efd9b927970240e62e3238f0ef165abf51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:50 +0000
Subject: [PATCH 23/42] fix: Bucket.Iterator must visit accepted nodes only

---
 dht/routetable.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dht/routetable.go b/dht/routetable.go
index babcc4d..ec4c4a5 100644
--- a/dht/routetable.go
+++ b/dht/routetable.go
@@ -38,7 +38,7 @@ func (b *Bucket) Exist(node *NodeInfo) bool {
 func (b *Bucket) Iterator(handler func(*NodeInfo)) {
 	defer b.RUnlock()
 	b.RLock()
-	for _, v := range b.nodes {
+	for _, v := range b.nodes[:b.size] {
 		handler(v)
 	}
 }
-- 
2.43.0


From 0af35855f2cc51c081fa01b378fd68523d6c4c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:50 +0000
Subject: [PATCH 24/42] fix: malformed entries of a peer list must be skipped

---
 dht/node.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/dht/node.go b/dht/node.go
index 3eb0720..db95cb3 100644
--- a/dht/node.go
+++ b/dht/node.go
@@ -91,14 +91,17 @@ func parseNodeInfo(infos string) []*NodeInfo {
 }
 
 func parsePeerInfo(vals misc.List) []*net.UDPAddr {
-	addrs := make([]*net.UDPAddr, len(vals))
+	addrs := make([]*net.UDPAddr, 0, len(vals))
 	for i := range vals {
-		val := vals.GetString(i)
+		val, ok := vals[i].(string)
+		if !ok || len(val) != 6 {
+			continue
+		}
 		bytes := []byte(val)
-		addrs[i] = &net.UDPAddr{
+		addrs = append(addrs, &net.UDPAddr{
 			IP:   bytes[:4],
 			Port: int(binary.BigEndian.Uint16(bytes[4:6])),
-		}
+		})
 	}
 
 	return addrs
-- 
2.43.0


From 2c79a3a621fb46cdaba40b34ce4997459802cd10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:50 +0000
Subject: [PATCH 25/42] fix: the download address of an IPv6 announcer must be
 bracketed

---
 dht/fetchtorrent.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dht/fetchtorrent.go b/dht/fetchtorrent.go
index e60aad4..5a5ced8 100644
--- a/dht/fetchtorrent.go
+++ b/dht/fetchtorrent.go
@@ -7,6 +7,7 @@ import (
 	"github.com/GalaIO/P2Pcrawler/dht/krpc"
 	"github.com/GalaIO/P2Pcrawler/dht/peerwire"
 	"github.com/GalaIO/P2Pcrawler/misc"
+	"net"
 	"os"
 	"strconv"
 )
@@ -51,7 +52,7 @@ func parseFetchAddr(ctx *krpc.RpcContext) string {
 	if body.Exist("implied_port") && body.GetInteger("implied_port") > 0 {
 		useUdpPort = true
 	}
-	laddr := ctx.RemoteAddr().IP.String() + ":" + strconv.Itoa(port)
+	laddr := net.JoinHostPort(ctx.RemoteAddr().IP.String(), strconv.Itoa(port))
 	if useUdpPort {
 		laddr = ctx.RemoteAddr().String()
 	}
-- 
2.43.0


From 7069570918295d7be1d15c0b057470eec1205348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:43 +0000
Subject: [PATCH 26/42] fix: a peer's messages must be read whole, however they
 are segmented

---
 dht/peerwire/bep3.go | 8 ++++----
 dht/peerwire/bep9.go | 3 ++-
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/dht/peerwire/bep3.go b/dht/peerwire/bep3.go
index 528b095..30d2f04 100644
--- a/dht/peerwire/bep3.go
+++ b/dht/peerwire/bep3.go
@@ -136,7 +136,7 @@ func supportExterned(bytes []byte) []byte {
 // without prefix bytes
 func readBytesByPrefixLenMsg(reader io.Reader) (bool, []byte, error) {
 	preLenbytes := peerBytesPool.GetBySize(PrefixLen)
-	_, err := reader.Read(preLenbytes)
+	_, err := io.ReadFull(reader, preLenbytes)
 	if err != nil {
 		return false, nil, err
 	}
@@ -150,10 +150,10 @@ func readBytesByPrefixLenMsg(reader io.Reader) (bool, []byte, error) {
 	if preLen > maxReadLength {
 		return false, nil, errors.New("read input toolarge")
 	}
-	buf := peerBytesPool.GetBySize(maxReadLength)
-	n, err := reader.Read(buf)
+	buf := peerBytesPool.GetBySize(maxReadLength)[:preLen]
+	_, err = io.ReadFull(reader, buf)
 	if err != nil {
 		return false, nil, err
 	}
-	return false, buf[:n], nil
+	return false, buf, nil
 }
diff --git a/dht/peerwire/bep9.go b/dht/peerwire/bep9.go
index 81e4fae..6dcf33e 100644
--- a/dht/peerwire/bep9.go
+++ b/dht/peerwire/bep9.go
@@ -6,6 +6,7 @@ import (
 	"encoding/hex"
 	"errors"
 	"github.com/GalaIO/P2Pcrawler/misc"
+	"io"
 	"net"
 	"strings"
 	"time"
@@ -270,7 +271,7 @@ func handshakePeer(peerId []byte, peerConn *PeerConn) {
 	}
 	// get handshake response
 	readBytes := make([]byte, handShakeLen)
-	_, err = peerConn.conn.Read(readBytes)
+	_, err = io.ReadFull(peerConn.conn, readBytes)
 	if err != nil {
 		fetchMetaLogger.Panic("get handshake response err", misc.Dict{"laddr": laddr, "err": err})
 	}
-- 
2.43.0


From c6334f406c737b350fe5bd2ccbf6148e1f9f1dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:43 +0000
Subject: [PATCH 27/42] fix: a received piece must be copied out of the pooled
 read buffer

---
 dht/peerwire/bep9.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dht/peerwire/bep9.go b/dht/peerwire/bep9.go
index 6dcf33e..f21a8fa 100644
--- a/dht/peerwire/bep9.go
+++ b/dht/peerwire/bep9.go
@@ -241,7 +241,8 @@ func handleExtendedMsg(peerConn *PeerConn, readBytes []byte) {
 			return
 		}
 		pieceNum := fetchMetaResp.PieceNum()
-		peerConn.metaData[pieceNum] = fetchMetaResp.Data()
+		// the read buffer goes back to the pool
+		peerConn.metaData[pieceNum] = append([]byte(nil), fetchMetaResp.Data()...)
 		peerConn.requestedMetaData[pieceNum] = true
 	//pexExtendedId
 	case 2:
-- 
2.43.0


From 16d40cb1972055ced3f542ad648651d3e6c7e787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:43 +0000
Subject: [PATCH 28/42] fix: a peer's metadata size must be positive and
 limited

---
 dht/peerwire/bep9.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dht/peerwire/bep9.go b/dht/peerwire/bep9.go
index f21a8fa..50d9dc8 100644
--- a/dht/peerwire/bep9.go
+++ b/dht/peerwire/bep9.go
@@ -14,6 +14,7 @@ import (
 
 // refer http://www.bittorrent.org/beps/bep_0009.html
 const SizeOf16KB = 16 * 1024
+const maxMetaDataSize = 1024 * SizeOf16KB
 
 type ExFecthMetaType int
 
@@ -215,6 +216,9 @@ func handleExtendedMsg(peerConn *PeerConn, readBytes []byte) {
 
 		// get piece
 		metaSize := dict.GetInteger("metadata_size")
+		if metaSize <= 0 || metaSize > maxMetaDataSize {
+			fetchMetaLogger.Panic("get extended handshake wrong metadata size", misc.Dict{"laddr": laddr, "metaSize": metaSize})
+		}
 		peerConn.metaDataSize = metaSize
 		pieceCount := metaSize / SizeOf16KB
 		if metaSize%SizeOf16KB > 0 {
-- 
2.43.0


From 37c2c7db96e0fbb6ec6e1af275f012da35f71027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:43 +0000
Subject: [PATCH 29/42] fix: a repeated extended handshake must not restart the
 fetch

---
 dht/peerwire/bep9.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dht/peerwire/bep9.go b/dht/peerwire/bep9.go
index 50d9dc8..ccc58ec 100644
--- a/dht/peerwire/bep9.go
+++ b/dht/peerwire/bep9.go
@@ -205,6 +205,10 @@ func handleExtendedMsg(peerConn *PeerConn, readBytes []byte) {
 	switch msgId {
 	//HandshakeExtendedID
 	case 0:
+		// a peer may repeat its extended handshake, the pieces are requested already
+		if peerConn.metaDataSize > 0 {
+			return
+		}
 		// get extended handshake response
 		exHandShakeResp := parseExtendedHandShake(readBytes)
 		fetchMetaLogger.Info("get extended handshake", misc.Dict{"laddr": laddr, "exHandShakeResp": exHandShakeResp})
-- 
2.43.0


From 6fc0c76a2f85f788c0deb1ed0a98fac9190b9537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:54 +0000
Subject: [PATCH 30/42] fix: metadata pieces must be requested with the peer's
 own ut_metadata id

---
 dht/peerwire/bep9.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/dht/peerwire/bep9.go b/dht/peerwire/bep9.go
index ccc58ec..15a74a9 100644
--- a/dht/peerwire/bep9.go
+++ b/dht/peerwire/bep9.go
@@ -219,6 +219,12 @@ func handleExtendedMsg(peerConn *PeerConn, readBytes []byte) {
 		}
 
 		// get piece
+		// requests carry the id the peer has chosen for ut_metadata
+		metadata := exHandShakeResp.Metadata()
+		peerMetaId := metadata.GetInteger("ut_metadata")
+		if peerMetaId <= 0 || peerMetaId > 255 {
+			fetchMetaLogger.Panic("peer does not support ut_metadata", misc.Dict{"laddr": laddr, "exHandShakeResp": exHandShakeResp})
+		}
 		metaSize := dict.GetInteger("metadata_size")
 		if metaSize <= 0 || metaSize > maxMetaDataSize {
 			fetchMetaLogger.Panic("get extended handshake wrong metadata size", misc.Dict{"laddr": laddr, "metaSize": metaSize})
@@ -233,7 +239,7 @@ func handleExtendedMsg(peerConn *PeerConn, readBytes []byte) {
 		for i := 0; i < pieceCount; i++ {
 			peerConn.requestedMetaData[i] = false
 			// request piece
-			_, err := peerConn.conn.Write(withExtendedFetchMetaMsg(1, ExRequest, i, 0))
+			_, err := peerConn.conn.Write(withExtendedFetchMetaMsg(peerMetaId, ExRequest, i, 0))
 			if err != nil {
 				fetchMetaLogger.Panic("write request piece err", misc.Dict{"laddr": laddr, "err": err})
 			}
-- 
2.43.0


From a6dc418dc123bf0d7dddd8e23f015614ad9cfca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:58 +0000
Subject: [PATCH 31/42] fix: registering a cleanup must not race with the
 shutdown running them

---
 misc/shutdown.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/misc/shutdown.go b/misc/shutdown.go
index b9e5f3e..512aa4d 100644
--- a/misc/shutdown.go
+++ b/misc/shutdown.go
@@ -35,6 +35,7 @@ func Wait4Shutdown(timeout time.Duration) {
 }
 
 type shutdownContext struct {
+	sync.Mutex
 	sigChan  chan os.Signal
 	status   atomic.Value
 	innerCtx context.Context
@@ -72,15 +73,21 @@ func (ctx *shutdownContext) Status() ShutdownStatus {
 }
 
 func (ctx *shutdownContext) Clean(cleanHandler ...CleanFunc) {
+	defer ctx.Unlock()
+	ctx.Lock()
 	ctx.cleans = append(ctx.cleans, cleanHandler...)
 }
 
 func (ctx *shutdownContext) runCleans() chan bool {
 	finished := make(chan bool)
+	// cleanups may still be registered
+	ctx.Lock()
+	cleans := ctx.cleans
+	ctx.Unlock()
 	go func() {
 		wg := sync.WaitGroup{}
-		wg.Add(len(ctx.cleans))
-		for _, clean := range ctx.cleans {
+		wg.Add(len(cleans))
+		for _, clean := range cleans {
 			go func(callback CleanFunc) {
 				callback()
 				wg.Done()
-- 
2.43.0


From 9f7a9cc2b2fae4a2d87f5938f71ccd0faec5a181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:58 +0000
Subject: [PATCH 32/42] fix: the logger registry must not be read without its
 lock

---
 misc/logger.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/misc/logger.go b/misc/logger.go
index 760bc95..0b685f7 100644
--- a/misc/logger.go
+++ b/misc/logger.go
@@ -58,9 +58,6 @@ var bufferedLoggers = &bufferLogger{
 var defaultLoggerFactory LoggerFactory = NewConsoleLoggerFactory()
 
 func (b *bufferLogger) mapLogger(name string) Logger {
-	if v, ok := b.bufferedLoggers[name]; ok {
-		return v
-	}
 	b.Lock()
 	defer b.Unlock()
 	if v, ok := b.bufferedLoggers[name]; ok {
@@ -72,6 +69,8 @@ func (b *bufferLogger) mapLogger(name string) Logger {
 }
 
 func (b *bufferLogger) flush() error {
+	b.Lock()
+	defer b.Unlock()
 	for _, v := range b.bufferedLoggers {
 		v.Flush()
 	}
-- 
2.43.0


From cb6cecc6ec197794c77822fb5d9077926dde7012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:58 +0000
Subject: [PATCH 33/42] fix: configuration getters must not race with each
 other or a reload

---
 config/config.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/config/config.go b/config/config.go
index 6585b02..d878565 100644
--- a/config/config.go
+++ b/config/config.go
@@ -3,6 +3,7 @@ package config
 import (
 	"github.com/GalaIO/P2Pcrawler/misc"
 	"github.com/spf13/viper"
+	"sync"
 )
 
 const (
@@ -18,6 +19,7 @@ const (
 )
 
 var configMap = make(misc.Dict, 16)
+var configLock sync.Mutex
 var configLogger = misc.GetLogger().SetPrefix("config")
 
 type dhtConfig struct {
@@ -84,6 +86,8 @@ func defaultLoggerConfig() *loggerConfig {
 }
 
 func ResetConfig() {
+	configLock.Lock()
+	defer configLock.Unlock()
 	viper.SetConfigPermissions(0666)
 	configLogger.Trace("read config", misc.Dict{"path": viper.ConfigFileUsed(), "defaultPath": FileAbsPath})
 	if err := viper.ReadInConfig(); err != nil {
@@ -105,6 +109,8 @@ func ResetConfig() {
 }
 
 func DhtConfig() *dhtConfig {
+	configLock.Lock()
+	defer configLock.Unlock()
 	val := defaultDhtConfig()
 	if viper.IsSet(dhtConfigKey + ".BootstrapNodes") {
 		// a configured list replaces the default one
@@ -114,18 +120,24 @@ func DhtConfig() *dhtConfig {
 }
 
 func FetchTorrentConfig() *fetchTorrentConfig {
+	configLock.Lock()
+	defer configLock.Unlock()
 	return getSubConfig(fetchTorrentConfigKey, defaultFetchTorrentConfig()).(*fetchTorrentConfig)
 }
 
 func PProfConfig() *pprofConfig {
+	configLock.Lock()
+	defer configLock.Unlock()
 	return getSubConfig(pprofConfigKey, defaultPprofConfig()).(*pprofConfig)
 }
 
 func LoggerConfig() *loggerConfig {
+	configLock.Lock()
+	defer configLock.Unlock()
 	return getSubConfig(loggerConfigKey, defaultLoggerConfig()).(*loggerConfig)
 }
 
-// getSubConfig reads a section into valPtr, which holds its defaults.
+// getSubConfig reads a section into valPtr, which holds its defaults. The caller holds configLock.
 func getSubConfig(key string, valPtr interface{}) interface{} {
 
 	if val, ok := configMap[key]; ok {
-- 
2.43.0


From 4bc1e2bf28fee1ef9cbcaaa6b028537666b2fdb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:46 +0000
Subject: [PATCH 34/42] fix: the configured log level must reach the loggers
 already made

---
 misc/logger.go | 36 ++++++++++++++++++++++++++++--------
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/misc/logger.go b/misc/logger.go
index 0b685f7..c363db9 100644
--- a/misc/logger.go
+++ b/misc/logger.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"strings"
 	"sync"
+	"sync/atomic"
 	"time"
 )
 
@@ -49,6 +50,11 @@ type bufferLogger struct {
 	level           LogLevel
 }
 
+// leveledLogger is a logger whose level can change after it was made
+type leveledLogger interface {
+	setLevel(level LogLevel)
+}
+
 // global var
 var bufferedLoggers = &bufferLogger{
 	bufferedLoggers: make(map[string]Logger, 10),
@@ -81,6 +87,11 @@ func (b *bufferLogger) setLevel(level LogLevel) {
 	b.Lock()
 	defer b.Unlock()
 	b.level = level
+	for _, v := range b.bufferedLoggers {
+		if l, ok := v.(leveledLogger); ok {
+			l.setLevel(level)
+		}
+	}
 }
 
 func TransLogLevel(name string) LogLevel {
@@ -124,15 +135,24 @@ func (f *consoleLoggerFactory) GetDefaultName() string {
 }
 
 func (f *consoleLoggerFactory) NewLogger(name string, level LogLevel) Logger {
+	lv := int32(level)
 	return &consoleLogger{
 		prefix: "",
-		level:  level,
+		level:  &lv,
 	}
 }
 
 type consoleLogger struct {
 	prefix string
-	level  LogLevel
+	level  *int32 // shared with the loggers derived by SetPrefix
+}
+
+func (c *consoleLogger) setLevel(level LogLevel) {
+	atomic.StoreInt32(c.level, int32(level))
+}
+
+func (c *consoleLogger) getLevel() LogLevel {
+	return LogLevel(atomic.LoadInt32(c.level))
 }
 
 func (c *consoleLogger) SetPrefix(prefix string) Logger {
@@ -143,7 +163,7 @@ func (c *consoleLogger) SetPrefix(prefix string) Logger {
 }
 
 func (c *consoleLogger) Debug(msg string, ctx Dict) {
-	if c.level > DEBUG {
+	if c.getLevel() > DEBUG {
 		return
 	}
 	c.print("Debug", msg, ctx)
@@ -160,35 +180,35 @@ func (c *consoleLogger) print(level string, msg string, ctx Dict) {
 }
 
 func (c *consoleLogger) Info(msg string, ctx Dict) {
-	if c.level > INFO {
+	if c.getLevel() > INFO {
 		return
 	}
 	c.print("Info", msg, ctx)
 }
 
 func (c *consoleLogger) Warn(msg string, ctx Dict) {
-	if c.level > WARN {
+	if c.getLevel() > WARN {
 		return
 	}
 	c.print("Warn", msg, ctx)
 }
 
 func (c *consoleLogger) Error(msg string, ctx Dict) {
-	if c.level > ERROR {
+	if c.getLevel() > ERROR {
 		return
 	}
 	c.print("Error", msg, ctx)
 }
 
 func (c *consoleLogger) Panic(msg string, ctx Dict) {
-	if c.level <= PANIC {
+	if c.getLevel() <= PANIC {
 		c.print("Panic", msg, ctx)
 	}
 	panic(msg)
 }
 
 func (c *consoleLogger) Trace(msg string, ctx Dict) {
-	if c.level > TRACE {
+	if c.getLevel() > TRACE {
 		return
 	}
 	c.print("Trace", msg, ctx)
-- 
2.43.0


From 3dc3222f7bc442ce75a54cb6bcf7bbb752a01fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:07 +0000
Subject: [PATCH 35/42] fix: the log level of the configuration file named on
 the command line must be used

---
 cmd/root.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmd/root.go b/cmd/root.go
index 17e42eb..e83b5d6 100644
--- a/cmd/root.go
+++ b/cmd/root.go
@@ -38,6 +38,7 @@ func rootExectueFunc(cmd *cobra.Command, args []string) {
 	if len(cfgFile) > 0 {
 		viper.SetConfigFile(cfgFile)
 		config.ResetConfig()
+		misc.SetLevel(misc.TransLogLevel(config.LoggerConfig().Level))
 	}
 
 	if config.PProfConfig().NeedRun {
-- 
2.43.0


From 0a2d1da1eba982e0bb5ff22dae93c3a25859d570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:36 +0000
Subject: [PATCH 36/42] fix: deeply nested bencode must not overflow the stack

---
 misc/beancode.go | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/misc/beancode.go b/misc/beancode.go
index 5147b97..3783a7a 100644
--- a/misc/beancode.go
+++ b/misc/beancode.go
@@ -9,6 +9,9 @@ import (
 
 var WrongDecodeParamErr = errors.New("wrong benDecode param")
 
+// nested deeper, lists and dictionaries would exhaust the stack
+const maxDecodeDepth = 10000
+
 func EncodeInteger(src int) (string, error) {
 	return "i" + strconv.Itoa(src) + "e", nil
 }
@@ -184,7 +187,7 @@ func DecodeSlice(src string) (List, error) {
 		return nil, WrongDecodeParamErr
 	}
 
-	result, next, err := innerDecodeSlice(src, 0)
+	result, next, err := innerDecodeSlice(src, 0, 0)
 
 	if err != nil {
 		return nil, err
@@ -196,15 +199,15 @@ func DecodeSlice(src string) (List, error) {
 	return result, nil
 }
 
-func innerDecodeSlice(src string, start int) (List, int, error) {
-	if src[start] != 'l' {
+func innerDecodeSlice(src string, start, depth int) (List, int, error) {
+	if src[start] != 'l' || depth >= maxDecodeDepth {
 		return nil, -1, WrongDecodeParamErr
 	}
 
 	result := make(List, 0, 16)
 	i := start + 1
 	for i < len(src) && src[i] != 'e' {
-		tmp, nextIdx, err := decodeItem(src, i)
+		tmp, nextIdx, err := decodeItem(src, i, depth+1)
 		if err != nil {
 			return nil, -1, err
 		}
@@ -219,7 +222,7 @@ func innerDecodeSlice(src string, start int) (List, int, error) {
 	return result, i + 1, nil
 }
 
-func decodeItem(src string, i int) (interface{}, int, error) {
+func decodeItem(src string, i, depth int) (interface{}, int, error) {
 	if i >= len(src) {
 		return nil, -1, WrongDecodeParamErr
 	}
@@ -227,9 +230,9 @@ func decodeItem(src string, i int) (interface{}, int, error) {
 	if src[i] == 'i' {
 		return innerDecodeInteger(src, i)
 	} else if src[i] == 'l' {
-		return innerDecodeSlice(src, i)
+		return innerDecodeSlice(src, i, depth)
 	} else if src[i] == 'd' {
-		return innerDecodeDict(src, i)
+		return innerDecodeDict(src, i, depth)
 	} else if src[i] >= '0' && src[i] <= '9' {
 		return innerDecodeString(src, i)
 	} else {
@@ -270,7 +273,7 @@ func DecodeDict(src string) (Dict, error) {
 		return nil, WrongDecodeParamErr
 	}
 
-	result, next, err := innerDecodeDict(src, 0)
+	result, next, err := innerDecodeDict(src, 0, 0)
 
 	if err != nil {
 		return nil, err
@@ -294,7 +297,7 @@ func DecodeDictNoLimit(src string) (Dict, int, error) {
 		return nil, -1, WrongDecodeParamErr
 	}
 
-	result, next, err := innerDecodeDict(src, 0)
+	result, next, err := innerDecodeDict(src, 0, 0)
 
 	if err != nil {
 		return nil, -1, err
@@ -303,9 +306,9 @@ func DecodeDictNoLimit(src string) (Dict, int, error) {
 	return result, next, nil
 }
 
-func innerDecodeDict(src string, start int) (Dict, int, error) {
+func innerDecodeDict(src string, start, depth int) (Dict, int, error) {
 
-	if src[start] != 'd' {
+	if src[start] != 'd' || depth >= maxDecodeDepth {
 		return nil, -1, WrongDecodeParamErr
 	}
 
@@ -313,7 +316,7 @@ func innerDecodeDict(src string, start int) (Dict, int, error) {
 
 	i := start + 1
 	for i < len(src) && src[i] != 'e' {
-		ktmp, next, err := decodeItem(src, i)
+		ktmp, next, err := decodeItem(src, i, depth+1)
 		if err != nil {
 			return nil, -1, err
 		}
@@ -323,7 +326,7 @@ func innerDecodeDict(src string, start int) (Dict, int, error) {
 			return nil, -1, WrongDecodeParamErr
 		}
 
-		val, next, err := decodeItem(src, next)
+		val, next, err := decodeItem(src, next, depth+1)
 		if err != nil {
 			return nil, -1, err
 		}
-- 
2.43.0


From 33c6be85f1b395c2ad4ec44a58754cbef81fff7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:39 +0000
Subject: [PATCH 37/42] fix: a file logger must know every level name in any
 case

---
 misc/zap.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/misc/zap.go b/misc/zap.go
index 2a90fec..cb017a2 100644
--- a/misc/zap.go
+++ b/misc/zap.go
@@ -5,6 +5,7 @@ import (
 	"go.uber.org/zap"
 	"go.uber.org/zap/zapcore"
 	"gopkg.in/natefinch/lumberjack.v2"
+	"strings"
 )
 
 // user define level
@@ -92,15 +93,19 @@ func NewZapLogger(name string, logLevel string) Logger {
 }
 
 func parseLogLevel(logLevel string) zapcore.Level {
-	switch logLevel {
+	switch strings.ToUpper(logLevel) {
 	case "DEBUG":
 		return zapcore.DebugLevel
 	case "INFO":
 		return zapcore.InfoLevel
+	case "WARN":
+		return zapcore.WarnLevel
 	case "ERROR":
 		return zapcore.ErrorLevel
 	case "PANIC":
 		return zapcore.PanicLevel
+	case "TRACE":
+		return traceLevel
 	default:
 		return zapcore.InfoLevel
 	}
-- 
2.43.0


From ad27c5addc9104d5eeb74a359064c3a1c2b225ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:56 +0000
Subject: [PATCH 38/42] fix: a torrent file must not be visible half-written

---
 dht/fetchtorrent.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/dht/fetchtorrent.go b/dht/fetchtorrent.go
index 5a5ced8..c51894f 100644
--- a/dht/fetchtorrent.go
+++ b/dht/fetchtorrent.go
@@ -10,10 +10,14 @@ import (
 	"net"
 	"os"
 	"strconv"
+	"sync/atomic"
 )
 
 var recvInfoHash = make(chan *krpc.RpcContext, config.FetchTorrentConfig().InfoHashQueueSize)
 
+// number of torrent files written so far, to tell temporary files apart
+var flushSeq uint64
+
 func fetchTorrent() {
 	// 开启线程池消费
 	pool := misc.NewWorkPool(context.Background(), "fetchtorrent-workpool", config.FetchTorrentConfig().WorkPoolSize)
@@ -59,16 +63,25 @@ func parseFetchAddr(ctx *krpc.RpcContext) string {
 	return laddr
 }
 
+// flushTorrentFile writes under a temporary name first: a file under its final
+// name is always whole, even when the write fails or the process dies.
 func flushTorrentFile(fileName string, data []byte) {
-	file, err := os.Create("torrent/" + fileName + ".torrent")
-	defer file.Close()
+	name := "torrent/" + fileName + ".torrent"
+	tmpName := name + "." + strconv.FormatUint(atomic.AddUint64(&flushSeq, 1), 10) + ".tmp"
+	file, err := os.Create(tmpName)
 	if err != nil {
 		dhtLogger.Error("create file err", misc.Dict{"err": err})
 		return
 	}
 	_, err = file.Write(data)
+	if closeErr := file.Close(); err == nil {
+		err = closeErr
+	}
+	if err == nil {
+		err = os.Rename(tmpName, name)
+	}
 	if err != nil {
 		dhtLogger.Error("write file err", misc.Dict{"err": err})
-		return
+		os.Remove(tmpName)
 	}
 }
-- 
2.43.0


From e228922ad474d9bd98c44d29dec5d52a963d4447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:26 +0000
Subject: [PATCH 39/42] fix: a node id must be stored once, whatever address
 comes with it

A node whose id was known already was stored again when it came with another
address, so that one id could fill a bucket and a lookup by id was ambiguous.
---
 dht/routetable.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/dht/routetable.go b/dht/routetable.go
index ec4c4a5..5e2d5c7 100644
--- a/dht/routetable.go
+++ b/dht/routetable.go
@@ -35,6 +35,17 @@ func (b *Bucket) Exist(node *NodeInfo) bool {
 	return false
 }
 
+func (b *Bucket) existId(id string) bool {
+	defer b.RUnlock()
+	b.RLock()
+	for i := 0; i < b.size; i++ {
+		if b.nodes[i].Id == id {
+			return true
+		}
+	}
+	return false
+}
+
 func (b *Bucket) Iterator(handler func(*NodeInfo)) {
 	defer b.RUnlock()
 	b.RLock()
@@ -152,8 +163,9 @@ func (t *RouteTable) AddNode(node *NodeInfo) error {
 
 func (t *RouteTable) addNode(node *NodeInfo, preLen int) error {
 	// hit last buket or other buchet
+	// an id is stored once, whatever address comes with it
 	bucket := t.nodeMap[preLen]
-	if preLen >= t.lastBucketIndex && !bucket.Exist(node) && bucket.Full() {
+	if preLen >= t.lastBucketIndex && !bucket.existId(node.Id) && bucket.Full() {
 		// hit last bucket, and split new bucket
 		return t.addNodeWithsplitBucket(node)
 	}
@@ -164,7 +176,7 @@ func (t *RouteTable) addNode(node *NodeInfo, preLen int) error {
 		return errors.New("the bucket is full")
 	}
 
-	if bucket.Exist(node) {
+	if bucket.existId(node.Id) {
 		return nil
 	}
 	if !bucket.Add(node) {
-- 
2.43.0


From 8e885bfa417dcd77e38caf93a44f159eb4749cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:36:28 +0000
Subject: [PATCH 40/42] fix: a datagram too large for the receive buffer must
 be ignored, not cut

---
 dht/krpc/udp.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/dht/krpc/udp.go b/dht/krpc/udp.go
index 3c5df6e..dddfdf6 100644
--- a/dht/krpc/udp.go
+++ b/dht/krpc/udp.go
@@ -98,12 +98,18 @@ func StartUdpServer(localAddr string) *UdpServer {
 
 func (s *UdpServer) recvRoutiue() {
 	for !(s.closed.Load().(bool)) {
-		buf := krpcBytesPool.GetBySize(RecvPacketLen)
+		// one byte more than allowed tells a packet which is too large
+		buf := krpcBytesPool.GetBySize(RecvPacketLen + 1)
 		n, raddr, err := s.conn.ReadFromUDP(buf)
 		if err != nil {
 			udpLogger.Error("<<< receive udp err", misc.Dict{"err": err})
 			continue
 		}
+		if n > RecvPacketLen {
+			udpLogger.Error("<<< receive too large packet, ignore", misc.Dict{"raddr": raddr.String()})
+			krpcBytesPool.Put(buf)
+			continue
+		}
 		udpLogger.Info("<<< received Bytes", misc.Dict{"raddr": raddr.String(), "length": n})
 		select {
 		case s.recvq <- &RecvPacket{Addr: raddr, Bytes: buf[:n]}:
-- 
2.43.0


From 87cd1acd358e723ffbf33857ff9c90e0051cb89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:24:24 +0000
Subject: [PATCH 41/42] fix: the torrent command must close the files it has
 read

---
 cmd/torrent.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmd/torrent.go b/cmd/torrent.go
index 3bbdd7a..60b5011 100644
--- a/cmd/torrent.go
+++ b/cmd/torrent.go
@@ -33,6 +33,7 @@ var torrent = &cobra.Command{
 func printTorrentInfo(filename, path string) {
 	file, err := os.Open(path)
 	misc.PanicSysErrNonNil(err, "open torrent file err", path)
+	defer file.Close()
 	bytes, err := ioutil.ReadAll(file)
 	misc.PanicSysErrNonNil(err, "read torrent file err", path)
 	dict, err := misc.DecodeDict(misc.Bytes2Str(bytes))
-- 
2.43.0


From 692ad8acb40c524f9ce542668965bac0080da88d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:27:34 +0000
Subject: [PATCH 42/42] fix: one bad file must not keep the torrent command
 from reporting the others

---
 cmd/torrent.go | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/cmd/torrent.go b/cmd/torrent.go
index 60b5011..d798430 100644
--- a/cmd/torrent.go
+++ b/cmd/torrent.go
@@ -21,23 +21,33 @@ var torrent = &cobra.Command{
 			misc.PanicSysErrNonNil(err, "open torrent dir err")
 			for _, item := range dirs {
 				if !item.IsDir() && strings.HasSuffix(item.Name(), ".torrent") {
-					printTorrentInfo(item.Name(), filepath.Join(path, item.Name()))
+					// one bad file must not hide the others
+					if err := printTorrentInfo(item.Name(), filepath.Join(path, item.Name())); err != nil {
+						fmt.Fprintf(os.Stderr, "%s: %s\r\n", item.Name(), err.Error())
+					}
 				}
 			}
 			return
 		}
-		printTorrentInfo(path, path)
+		misc.PanicSysErrNonNil(printTorrentInfo(path, path), "print torrent file err", path)
 	},
 }
 
-func printTorrentInfo(filename, path string) {
+func printTorrentInfo(filename, path string) error {
 	file, err := os.Open(path)
-	misc.PanicSysErrNonNil(err, "open torrent file err", path)
+	if err != nil {
+		return err
+	}
 	defer file.Close()
 	bytes, err := ioutil.ReadAll(file)
-	misc.PanicSysErrNonNil(err, "read torrent file err", path)
+	if err != nil {
+		return err
+	}
 	dict, err := misc.DecodeDict(misc.Bytes2Str(bytes))
-	misc.PanicSysErrNonNil(err, "DecodeDict torrent file err", path)
+	if err != nil {
+		return err
+	}
 	fmt.Printf("%s||%s||%d||%d\r\n", dict.GetStringOrDefault("name", "name err"), filename,
 		dict.GetIntegerOrDefault("length", 0), dict.GetIntegerOrDefault("piece length", 0))
+	return nil
 }
-- 
2.43.0

