From 1ea1ea4968714932c4f588d301e318911355ffc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:39 +0000
Subject: [PATCH 01/57] fix: core: lexer and parser report errors for missing
 quoted strings and comments

---
 core/CoreLexer.go  | 18 +++++++++++++-----
 core/CoreParser.go |  6 ++++--
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/core/CoreLexer.go b/core/CoreLexer.go
index d98986b..236adcf 100644
--- a/core/CoreLexer.go
+++ b/core/CoreLexer.go
@@ -175,8 +175,8 @@ func (coreLexer *CoreLexer) PeekNextTokenK(ntokens int) ([]*Token, error) {
 				tok.tokenType = CORELEXER_ID
 			}
 		} else {
-			nextChar, err := coreLexer.GetNextChar()
-			if err != nil {
+			var nextChar byte
+			if nextChar, err = coreLexer.GetNextChar(); err != nil {
 				break
 			}
 			tok.tokenValue += string(nextChar)
@@ -359,9 +359,12 @@ func (coreLexer *CoreLexer) QuotedString() (s string, err error) {
 	var retval bytes.Buffer
 	var next byte
 
-	if next, err = coreLexer.LookAheadK(0); next != '"' || err != nil {
+	if next, err = coreLexer.LookAheadK(0); err != nil {
 		return "", err
 	}
+	if next != '"' {
+		return "", errors.New("ParseException: quoted string expected")
+	}
 	coreLexer.ConsumeK(1)
 	for {
 		if next, err = coreLexer.GetNextChar(); err != nil {
@@ -374,7 +377,9 @@ func (coreLexer *CoreLexer) QuotedString() (s string, err error) {
 			// 	return "", errors.New("ParseException: unexpected EOL")
 		} else if next == '\\' {
 			retval.WriteByte(next)
-			next, _ = coreLexer.GetNextChar()
+			if next, err = coreLexer.GetNextChar(); err != nil {
+				break
+			}
 			retval.WriteByte(next)
 		} else {
 			retval.WriteByte(next)
@@ -388,9 +393,12 @@ func (coreLexer *CoreLexer) Comment() (s string, err error) {
 	var retval bytes.Buffer
 	var next byte
 
-	if next, err = coreLexer.LookAheadK(0); next != '(' || err != nil {
+	if next, err = coreLexer.LookAheadK(0); err != nil {
 		return "", err
 	}
+	if next != '(' {
+		return "", errors.New("ParseException: comment expected")
+	}
 	coreLexer.ConsumeK(1)
 	for {
 		if next, err = coreLexer.GetNextChar(); err != nil {
diff --git a/core/CoreParser.go b/core/CoreParser.go
index 7aa0595..3573061 100644
--- a/core/CoreParser.go
+++ b/core/CoreParser.go
@@ -53,9 +53,11 @@ func (coreParser *CoreParser) NameValue(separator byte) (nv *NameValue, ParseExc
 		var str string
 
 		if la, err = coreParser.lexer.LookAheadK(0); la == '"' && err == nil {
-			str, _ = coreParser.lexer.QuotedString()
+			if str, ParseException = coreParser.lexer.QuotedString(); ParseException != nil {
+				return nil, ParseException
+			}
 			quoted = true
-		} else {
+		} else if coreParser.lexer.StartsId() { // else a flag, encoded with an empty value
 			if _, ParseException = coreParser.lexer.Match(CORELEXER_ID); ParseException != nil {
 				return nil, ParseException
 			}
-- 
2.43.0


From 95e9e5bbde51132290b58f6bf44a8bfd95a31889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:39 +0000
Subject: [PATCH 02/57] fix: core: hosts are classified as name, IPv4 or IPv6
 as written

---
 core/Host.go     | 11 ++++++++---
 core/HostPort.go |  2 +-
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/core/Host.go b/core/Host.go
index c12eb69..32a2c3e 100644
--- a/core/Host.go
+++ b/core/Host.go
@@ -39,8 +39,11 @@ func NewHost(hname string) *Host {
 	host.hostname = hname
 	if host.isIPv6Address(hname) {
 		host.addressType = IPV6ADDRESS
+	} else if net.ParseIP(hname) != nil {
+		host.addressType = IPV4ADDRESS
+	} else {
+		host.addressType = HOSTNAME
 	}
-	host.addressType = IPV4ADDRESS
 
 	return host
 }
@@ -113,7 +116,9 @@ func (host *Host) GetIpAddress() string {
 		if host.inetAddress == nil {
 			host.inetAddress = net.ParseIP(host.hostname)
 		}
-		rawIpAddress = host.inetAddress.String() //getHostAddress();
+		if host.inetAddress != nil {
+			rawIpAddress = host.inetAddress.String() //getHostAddress();
+		}
 		//} catch (UnknownHostException ex) {
 		//    dbgPrint("Could not resolve hostname " + ex);
 		//}
@@ -192,7 +197,7 @@ func (host *Host) GetInetAddress() net.IP {
 	if host.inetAddress != nil {
 		return host.inetAddress
 	}
-	host.inetAddress = net.ParseIP(host.hostname)
+	host.inetAddress = net.ParseIP(strings.Trim(host.hostname, "[]"))
 	return host.inetAddress
 
 }
diff --git a/core/HostPort.go b/core/HostPort.go
index 248bb63..9320fe4 100644
--- a/core/HostPort.go
+++ b/core/HostPort.go
@@ -117,7 +117,7 @@ func (hostPort *HostPort) GetInetAddress() net.IP {
 	if hostPort.host == nil {
 		return nil
 	}
-	return net.ParseIP(hostPort.host.GetHostName())
+	return hostPort.host.GetInetAddress()
 }
 
 func (hostPort *HostPort) Clone() interface{} {
-- 
2.43.0


From e52b599a7ffe73f1db75a863b592d776350979f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:39 +0000
Subject: [PATCH 03/57] fix: core: parameter lists are case-insensitive and
 copied completely

---
 core/NameValueList.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/core/NameValueList.go b/core/NameValueList.go
index 0115bb7..6eaad61 100644
--- a/core/NameValueList.go
+++ b/core/NameValueList.go
@@ -3,6 +3,7 @@ package core
 import (
 	"bytes"
 	"container/list"
+	"strings"
 )
 
 /**
@@ -49,14 +50,18 @@ func (nameValueList *NameValueList) Concatenate(nvl *NameValueList, topFlag bool
 	if !topFlag {
 		//nameValueList.PushBackList(nvl)
 		for e := nvl.Front(); e != nil; e = e.Next() {
-		    nameValueList.PushBack(e)
+			nameValueList.PushBack(e.Value)
 		}
 	} else {
 		//nameValueList.PushFrontList(nvl)
 		// add given items to the end of the list.
 		first := nameValueList.Front()
 		for e := nvl.Front(); e != nil; e = e.Next() {
-		    nameValueList.InsertBefore(e, first)
+			if first == nil {
+				nameValueList.PushBack(e.Value)
+			} else {
+				nameValueList.InsertBefore(e.Value, first)
+			}
 		}
 	}
 }
@@ -202,7 +207,7 @@ func (nameValueList *NameValueList) GetValue(name string) interface{} {
 func (nameValueList *NameValueList) GetNameValue(name string) *NameValue {
 	for e := nameValueList.Front(); e != nil; e = e.Next() {
 		nv := e.Value.(*NameValue)
-		if nv.GetName() == name {
+		if strings.EqualFold(nv.GetName(), name) {
 			return nv
 		}
 	}
@@ -226,7 +231,7 @@ func (nameValueList *NameValueList) HasNameValue(name string) bool {
 func (nameValueList *NameValueList) Delete(name string) bool {
 	for e := nameValueList.Front(); e != nil; e = e.Next() {
 		nv := e.Value.(*NameValue)
-		if nv.GetName() == name {
+		if strings.EqualFold(nv.GetName(), name) {
 			nameValueList.Remove(e)
 			return true
 		}
@@ -255,11 +260,10 @@ func (nameValueList *NameValueList) Clone() interface{} {
 	retval.stringRep = nameValueList.stringRep
 	retval.separator = nameValueList.separator
 
-	li := list.New()
 	for e := nameValueList.Front(); e != nil; e = e.Next() {
 		nv := e.Value.(*NameValue)
 		nnv := nv.Clone().(*NameValue)
-		li.PushBack(nnv)
+		retval.PushBack(nnv)
 	}
 
 	return retval
-- 
2.43.0


From 522b7cc3dfa6b15ba64cbec10e72bd5f358edee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:39 +0000
Subject: [PATCH 04/57] fix: rtp: fixed header, extension and payload are coded
 within bounds

---
 rtp/rtp.go       | 23 +++++++++++++----------
 rtp/rtppacket.go | 21 ++++++++++++++++++++-
 2 files changed, 33 insertions(+), 11 deletions(-)

diff --git a/rtp/rtp.go b/rtp/rtp.go
index 0760ec3..b6ba025 100644
--- a/rtp/rtp.go
+++ b/rtp/rtp.go
@@ -2,6 +2,7 @@ package rtp
 
 import (
 	"errors"
+	"sync"
 	"unsafe"
 )
 
@@ -84,11 +85,12 @@ func NewRTPHeaderFromBytes(packetbytes []byte) (*RTPHeader, error) {
 const INT_SIZE int = int(unsafe.Sizeof(0))
 
 var (
-	bigEndian = int(-1)
+	bigEndian     = int(-1)
+	bigEndianOnce sync.Once
 )
 
 func CheckEndian() {
-	if bigEndian == -1 {
+	bigEndianOnce.Do(func() {
 		var i int = 0x1
 		bs := (*[INT_SIZE]byte)(unsafe.Pointer(&i))
 		if bs[0] == 0 {
@@ -96,7 +98,7 @@ func CheckEndian() {
 		} else {
 			bigEndian = 0
 		}
-	}
+	})
 }
 
 /* helper, read a big-endian 16 bit int from memory */
@@ -128,7 +130,7 @@ func (this *RTPHeader) Parse(packetbytes []byte) error {
 		this.version = (packetbytes[0] >> 6) & RTP_HEADER_V_MSK
 		this.padding = (packetbytes[0] >> 5) & RTP_HEADER_P_MSK
 		this.extension = (packetbytes[0] >> 4) & RTP_HEADER_X_MSK
-		this.csrccount = packetbytes[0] & 0x07
+		this.csrccount = packetbytes[0] & RTP_HEADER_CC_MSK
 		this.marker = (packetbytes[1] >> 7) & RTP_HEADER_M_MSK
 		this.payloadtype = packetbytes[1] & RTP_HEADER_PT_MSK
 		//this.header_size = 12 + 4 * this.csrccount
@@ -191,9 +193,9 @@ func (this *RTPHeader) Encode() []byte {
 
 	for i := uint8(0); i < this.csrccount; i++ {
 		packetbytes[SIZEOF_RTPHEADER+i*4+0] = byte((this.csrc[i] >> 24) & 0xFF)
-		packetbytes[SIZEOF_RTPHEADER+i*4+0] = byte((this.csrc[i] >> 16) & 0xFF)
-		packetbytes[SIZEOF_RTPHEADER+i*4+0] = byte((this.csrc[i] >> 8) & 0xFF)
-		packetbytes[SIZEOF_RTPHEADER+i*4+0] = byte((this.csrc[i] >> 0) & 0xFF)
+		packetbytes[SIZEOF_RTPHEADER+i*4+1] = byte((this.csrc[i] >> 16) & 0xFF)
+		packetbytes[SIZEOF_RTPHEADER+i*4+2] = byte((this.csrc[i] >> 8) & 0xFF)
+		packetbytes[SIZEOF_RTPHEADER+i*4+3] = byte((this.csrc[i] >> 0) & 0xFF)
 	}
 
 	return packetbytes
@@ -231,7 +233,8 @@ func (this *RTPExtension) Parse(packetbytes []byte) error {
 		return errors.New("invalid rtp extendsion header size. error id/length")
 	}
 
-	for i := uint16(0); i < this.length; i++ {
+	this.data = make([]uint32, this.length)
+	for i := 0; i < int(this.length); i++ {
 		this.data[i] = uint32(packetbytes[SIZEOF_RTPEXTENSION+i*4+0])<<24 |
 			uint32(packetbytes[SIZEOF_RTPEXTENSION+i*4+1])<<16 |
 			uint32(packetbytes[SIZEOF_RTPEXTENSION+i*4+2])<<8 |
@@ -243,14 +246,14 @@ func (this *RTPExtension) Parse(packetbytes []byte) error {
 
 func (this *RTPExtension) Encode() []byte {
 	var packetbytes []byte
-	packetbytes = make([]byte, SIZEOF_RTPEXTENSION+this.length*4)
+	packetbytes = make([]byte, SIZEOF_RTPEXTENSION+int(this.length)*4)
 
 	packetbytes[0] = byte((this.id >> 8) & 0xFF)
 	packetbytes[1] = byte((this.id >> 0) & 0xFF)
 	packetbytes[2] = byte((this.length >> 8) & 0xFF)
 	packetbytes[3] = byte((this.length >> 0) & 0xFF)
 
-	for i := uint16(0); i < this.length; i++ {
+	for i := 0; i < int(this.length); i++ {
 		packetbytes[SIZEOF_RTPEXTENSION+i*4+0] = byte(this.data[i]>>24) & 0xFF
 		packetbytes[SIZEOF_RTPEXTENSION+i*4+1] = byte(this.data[i]>>16) & 0xFF
 		packetbytes[SIZEOF_RTPEXTENSION+i*4+2] = byte(this.data[i]>>8) & 0xFF
diff --git a/rtp/rtppacket.go b/rtp/rtppacket.go
index a02a771..91d6759 100644
--- a/rtp/rtppacket.go
+++ b/rtp/rtppacket.go
@@ -24,7 +24,9 @@ type RTPPacket struct {
  */
 func NewRTPPacketFromRawPacket(rawpack *RawPacket) (*RTPPacket, error) {
 	rp := &RTPPacket{}
-	rp.receivetime = rawpack.GetReceiveTime().Clone()
+	if t := rawpack.GetReceiveTime(); t != nil {
+		rp.receivetime = t.Clone()
+	}
 	if err := rp.ParseRawPacket(rawpack); err != nil {
 		return nil, err
 	}
@@ -87,6 +89,7 @@ func (rp *RTPPacket) ParseRawPacket(rawpack *RawPacket) error {
 	if payloadlength < 0 {
 		return errors.New("invalid payload length.")
 	}
+	rp.payload = rp.packet[payloadoffset : payloadoffset+payloadlength]
 
 	return nil
 }
@@ -145,6 +148,13 @@ func (rp *RTPPacket) BuildPacket(payloadtype uint8,
 		return errors.New("ERR_RTP_PACKET_TOOMANYCSRCS")
 	}
 
+	if int(numcsrcs) > len(csrcs) {
+		return errors.New("ERR_RTP_PACKET_NOTENOUGHCSRCS")
+	}
+	if gotextension && int(extensionlen) > len(extensiondata) {
+		return errors.New("ERR_RTP_PACKET_NOTENOUGHEXTENSIONDATA")
+	}
+
 	if payloadtype > 127 { // high bit should not be used
 		return errors.New("ERR_RTP_PACKET_BADPAYLOADTYPE")
 	}
@@ -281,16 +291,25 @@ func (rp *RTPPacket) GetPayload() []byte {
 
 /** If a header extension is present, rp function returns the extension identifier. */
 func (rp *RTPPacket) GetExtensionID() uint16 {
+	if rp.extension == nil {
+		return 0
+	}
 	return rp.extension.id
 }
 
 /** Returns the length of the header extension data. */
 func (rp *RTPPacket) GetExtensionLength() uint16 {
+	if rp.extension == nil {
+		return 0
+	}
 	return rp.extension.length
 }
 
 /** Returns the header extension data. */
 func (rp *RTPPacket) GetExtensionData() []uint32 {
+	if rp.extension == nil {
+		return nil
+	}
 	return rp.extension.data
 }
 
-- 
2.43.0


From d91df0a5bd397c3b92d4641165ffc3cebf78ec07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:39 +0000
Subject: [PATCH 05/57] fix: rtp: RTCP BYE and APP packets are checked before
 they are read

---
 rtp/rtcpapppacket.go | 7 +++++--
 rtp/rtcpbyepacket.go | 5 ++++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/rtp/rtcpapppacket.go b/rtp/rtcpapppacket.go
index 6fba17f..5fe47db 100644
--- a/rtp/rtcpapppacket.go
+++ b/rtp/rtcpapppacket.go
@@ -22,6 +22,9 @@ func NewRTCPAPPPacket(data []byte, datalen int) *RTCPAPPPacket {
 	this.knownformat = false
 
 	this.appdatalen = datalen
+	if datalen < SIZEOF_RTCPHEADER {
+		return this
+	}
 	if ((this.data[0] >> RTCP_HEADER_P_POS) & RTCP_HEADER_P_MSK) != 0 {
 		padcount := this.data[datalen-1]
 		if (padcount & 0x03) != 0 { // not a multiple of four! (see rfc 3550 p 37)
@@ -74,7 +77,7 @@ func (this *RTCPAPPPacket) GetName() []byte {
 		return nil
 	}
 
-	return this.data[SIZEOF_RTCPHEADER+4:] //(data+sizeof(RTCPCommonHeader)+sizeof(uint32_t));
+	return this.data[SIZEOF_RTCPHEADER+4 : SIZEOF_RTCPHEADER+4*2] //(data+sizeof(RTCPCommonHeader)+sizeof(uint32_t));
 }
 
 /** Returns a pointer to the actual data. */
@@ -85,7 +88,7 @@ func (this *RTCPAPPPacket) GetAPPData() []byte {
 	if this.appdatalen == 0 {
 		return nil
 	}
-	return this.data[SIZEOF_RTCPHEADER+4*2:]
+	return this.data[SIZEOF_RTCPHEADER+4*2 : SIZEOF_RTCPHEADER+4*2+this.appdatalen]
 }
 
 /** Returns the length of the actual data. */
diff --git a/rtp/rtcpbyepacket.go b/rtp/rtcpbyepacket.go
index c994ce7..8842fd4 100644
--- a/rtp/rtcpbyepacket.go
+++ b/rtp/rtcpbyepacket.go
@@ -23,6 +23,9 @@ func NewRTCPBYEPacket(data []byte, datalen int) *RTCPBYEPacket {
 
 	this.reasonoffset = 0
 	byelen := datalen
+	if byelen < SIZEOF_RTCPHEADER {
+		return this
+	}
 	if ((this.data[0] >> RTCP_HEADER_P_POS) & RTCP_HEADER_P_MSK) != 0 {
 		padcount := data[datalen-1]
 		if (padcount & 0x03) != 0 { // not a multiple of four! (see rfc 3550 p 37)
@@ -113,7 +116,7 @@ func (this *RTCPBYEPacket) GetReasonData() []byte {
 	if reasonlen == 0 {
 		return nil
 	}
-	return this.data[this.reasonoffset+1:]
+	return this.data[this.reasonoffset+1 : this.reasonoffset+1+int(reasonlen)]
 }
 
 func (this *RTCPBYEPacket) Dump() {
-- 
2.43.0


From 83c7f26cb2b540456cd7c6c95d535f7a3cf81dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:39 +0000
Subject: [PATCH 06/57] fix: rtp: collision list timeout and stored addresses

---
 rtp/collisionlist.go | 3 +++
 rtp/ipaddress.go     | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/rtp/collisionlist.go b/rtp/collisionlist.go
index cf24396..a557bab 100644
--- a/rtp/collisionlist.go
+++ b/rtp/collisionlist.go
@@ -66,6 +66,9 @@ func (this *CollisionList) HasAddress(addr Address) bool {
  */
 
 func (this *CollisionList) Timeout(currenttime *RTPTime, timeoutdelay *RTPTime) {
+	if currenttime.LT(timeoutdelay) { // nothing can be that old
+		return
+	}
 	checktime := currenttime.Clone()
 	checktime.Sub(timeoutdelay)
 
diff --git a/rtp/ipaddress.go b/rtp/ipaddress.go
index 7af517d..94ef77f 100644
--- a/rtp/ipaddress.go
+++ b/rtp/ipaddress.go
@@ -69,7 +69,7 @@ func (this *IPAddress) IsFromSameHost(addr Address) bool {
 }
 
 func (this *IPAddress) Clone() Address {
-	return &IPAddress{ip: this.ip, port: this.port}
+	return &IPAddress{ip: append(net.IP(nil), this.ip...), port: this.port}
 }
 
 func (this *IPAddress) String() string {
-- 
2.43.0


From fbaf6eaefb183f1a4099935727bf513b1bfc2961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:39 +0000
Subject: [PATCH 07/57] fix: rtp: seeding the random generator takes its lock

---
 rtp/random.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rtp/random.go b/rtp/random.go
index 543f9a0..af48a99 100644
--- a/rtp/random.go
+++ b/rtp/random.go
@@ -54,7 +54,9 @@ func (this *RandomRand48) PickSeed() uint32 {
 }
 
 func (this *RandomRand48) SetSeed(seed uint32) {
+	this.mutex.Lock()
 	this.state = (uint64(seed) << 16) | uint64(0x330E)
+	this.mutex.Unlock()
 }
 
 func (this *RandomRand48) GetRandom8() uint8 {
-- 
2.43.0


From 129987cc7bc491f3490d04687fae16153bb180c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:39 +0000
Subject: [PATCH 08/57] fix: address: SIP URI accessors and editing functions

---
 sip/address/SipURIImpl.go | 71 +++++++++++++++++++++------------------
 1 file changed, 39 insertions(+), 32 deletions(-)

diff --git a/sip/address/SipURIImpl.go b/sip/address/SipURIImpl.go
index 075e3a3..974db81 100644
--- a/sip/address/SipURIImpl.go
+++ b/sip/address/SipURIImpl.go
@@ -93,6 +93,7 @@ func (this *SipURIImpl) GetAuthority() *Authority {
  */
 func (this *SipURIImpl) ClearQheaders() {
 	this.qheaders = core.NewNameValueList("qheaders")
+	this.qheaders.SetSeparator("&")
 }
 
 /**
@@ -174,8 +175,11 @@ func (this *SipURIImpl) String() string {
  * @return user@host portion of the uri (null if none exists).
  */
 func (this *SipURIImpl) GetUserAtHost() string {
-	user := this.authority.GetUserInfo().GetUser()
-	host := this.authority.GetHost().String()
+	user := this.GetUser()
+	host := this.GetHost()
+	if user == "" {
+		return host
+	}
 	return user + core.SIPSeparatorNames_AT + host
 }
 
@@ -184,12 +188,9 @@ func (this *SipURIImpl) GetUserAtHost() string {
  * @return user@host portion of the uri (null if none exists).
  */
 func (this *SipURIImpl) GetUserAtHostPort() string {
-	var user string
-	if this.authority.GetUserInfo() != nil {
-		user = this.authority.GetUserInfo().GetUser()
-	}
-	host := this.authority.GetHost().String()
-	port := this.authority.GetPort()
+	user := this.GetUser()
+	host := this.GetHost()
+	port := this.GetPort()
 	// If port not set assign the default.
 	var s bytes.Buffer
 	if user != "" {
@@ -219,7 +220,7 @@ func (this *SipURIImpl) GetParm(parmname string) interface{} {
  * @return Method parameter.
  */
 func (this *SipURIImpl) GetMethod() string {
-	return this.GetParm(core.SIPTransportNames_METHOD).(string)
+	return this.GetParameter(core.SIPTransportNames_METHOD)
 }
 
 /**
@@ -251,7 +252,7 @@ func (this *SipURIImpl) GetQheaders() *core.NameValueList {
  * @return User parameter (user= phone or user=ip).
  */
 func (this *SipURIImpl) GetUserType() string {
-	return this.uriParms.GetValue(core.SIPTransportNames_USER).(string)
+	return this.GetParameter(core.SIPTransportNames_USER)
 }
 
 /**
@@ -318,6 +319,9 @@ func (this *SipURIImpl) GetPort() int {
 * @return the host portion of the url.
  */
 func (this *SipURIImpl) GetHost() string {
+	if this.authority == nil || this.authority.GetHost() == nil {
+		return ""
+	}
 	return this.authority.GetHost().String()
 }
 
@@ -348,7 +352,7 @@ func (this *SipURIImpl) GetHost() string {
  * @return true if the user is a telephone subscriber.
  */
 func (this *SipURIImpl) IsUserTelephoneSubscriber() bool {
-	usrtype := this.uriParms.GetValue(core.SIPTransportNames_USER).(string)
+	usrtype := this.GetParameter(core.SIPTransportNames_USER)
 	if usrtype == "" {
 		return false
 	}
@@ -395,6 +399,7 @@ func (this *SipURIImpl) RemoveHeader(name string) {
  */
 func (this *SipURIImpl) RemoveHeaders() {
 	this.qheaders = core.NewNameValueList("qheaders")
+	this.qheaders.SetSeparator("&")
 }
 
 /**
@@ -410,7 +415,9 @@ func (this *SipURIImpl) RemoveUserType() {
  *Remove the port setting.
  */
 func (this *SipURIImpl) RemovePort() {
-	this.authority.RemovePort()
+	if this.authority != nil {
+		this.authority.RemovePort()
+	}
 }
 
 /**
@@ -441,7 +448,9 @@ func (this *SipURIImpl) SetUser(uname string) {
 /** Remove the user.
  */
 func (this *SipURIImpl) RemoveUser() {
-	this.authority.RemoveUserInfo()
+	if this.authority != nil {
+		this.authority.RemoveUserInfo()
+	}
 }
 
 /** Set the default parameters for this URI.
@@ -451,7 +460,7 @@ func (this *SipURIImpl) RemoveUser() {
  * @param value value of the parameter to set.
  */
 func (this *SipURIImpl) SetDefaultParm(name string, value interface{}) {
-	if this.uriParms.GetValue(name) == nil {
+	if !this.uriParms.HasNameValue(name) {
 		nv := core.NewNameValue(name, value)
 		this.uriParms.AddNameValue(nv)
 	}
@@ -489,7 +498,7 @@ func (this *SipURIImpl) SetUriParms(parms *core.NameValueList) {
 */
 func (this *SipURIImpl) SetUriParm(name string, value interface{}) {
 	nv := core.NewNameValue(name, value)
-	this.uriParms.AddNameValue(nv)
+	this.uriParms.SetNameValue(nv)
 }
 
 /** Set the qheaders member
@@ -508,9 +517,9 @@ func (this *SipURIImpl) SetMAddr(mAddr string) {
 	host := &core.Host{}
 	host.SetAddress(mAddr)
 	if nameValue != nil {
-		nameValue.SetValue(host)
+		nameValue.SetValue(host.String())
 	} else {
-		nameValue = core.NewNameValue(core.SIPTransportNames_MADDR, host)
+		nameValue = core.NewNameValue(core.SIPTransportNames_MADDR, host.String())
 		this.uriParms.AddNameValue(nameValue)
 	}
 }
@@ -530,7 +539,7 @@ func (this *SipURIImpl) SetUserParam(usertype string) {
  * @param method method parameter
  */
 func (this *SipURIImpl) SetMethod(method string) {
-	this.uriParms.AddNameAndValue(core.SIPTransportNames_METHOD, method)
+	this.uriParms.SetNameAndValue(core.SIPTransportNames_METHOD, method)
 }
 
 /**
@@ -566,7 +575,7 @@ func (this *SipURIImpl) SetPort(p int) {
  * @return a boolean indicating whether the parameter exists.
  */
 func (this *SipURIImpl) HasParameter(name string) bool {
-	return this.uriParms.GetValue(name) != nil
+	return this.uriParms.HasNameValue(name)
 }
 
 /** Set the query header when provided as a name-value pair.
@@ -677,11 +686,7 @@ func (this *SipURIImpl) GetLrParam() string {
  * @return the value of the <code>maddr</code> parameter
  */
 func (this *SipURIImpl) GetMAddrParam() string {
-	maddr := this.uriParms.GetNameValue(core.SIPTransportNames_MADDR)
-	if maddr == nil {
-		return ""
-	}
-	return maddr.GetValue().(string)
+	return this.GetParameter(core.SIPTransportNames_MADDR)
 }
 
 /** Returns the value of the <code>method</code> parameter, or null if this
@@ -734,9 +739,8 @@ func (this *SipURIImpl) GetParameterNames() *list.List {
  * @return the value of the <code>ttl</code> parameter
  */
 func (this *SipURIImpl) GetTTLParam() int {
-	ttl := this.uriParms.GetValue("ttl")
-	if ttl != nil {
-		return ttl.(int)
+	if ttl, err := strconv.Atoi(this.GetParameter(core.SIPTransportNames_TTL)); err == nil && ttl >= 0 {
+		return ttl
 	}
 	return -1
 }
@@ -748,7 +752,7 @@ func (this *SipURIImpl) GetTTLParam() int {
  */
 func (this *SipURIImpl) GetTransportParam() string {
 	if this.uriParms != nil {
-		return this.uriParms.GetValue(core.SIPTransportNames_TRANSPORT).(string)
+		return this.GetParameter(core.SIPTransportNames_TRANSPORT)
 	}
 	return ""
 }
@@ -761,6 +765,9 @@ func (this *SipURIImpl) GetTransportParam() string {
  * @return the value of the <code>userParam</code> of the SipURI
  */
 func (this *SipURIImpl) GetUser() string {
+	if this.authority == nil {
+		return ""
+	}
 	return this.authority.GetUser()
 }
 
@@ -790,7 +797,7 @@ func (this *SipURIImpl) IsSipURI() bool {
  * @param value - a String specifying the header value
  */
 func (this *SipURIImpl) SetHeader(name, value string) {
-	if this.qheaders.GetValue(name) == nil {
+	if !this.qheaders.HasNameValue(name) {
 		nv := core.NewNameValue(name, value)
 		this.qheaders.AddNameValue(nv)
 	} else {
@@ -816,7 +823,7 @@ func (this *SipURIImpl) SetHostString(host string) {
  * pre-existing route Set.
  */
 func (this *SipURIImpl) SetLrParam() {
-	if this.uriParms.GetValue("lr") != nil {
+	if this.HasLrParam() {
 		return
 	}
 	nv := core.NewNameValue("lr", nil)
@@ -868,7 +875,7 @@ func (this *SipURIImpl) SetMethodParam(method string) {
  *
  */
 func (this *SipURIImpl) SetParameter(name, value string) {
-	if name == "ttl" {
+	if strings.EqualFold(name, core.SIPTransportNames_TTL) {
 		if _, err := strconv.Atoi(value); err != nil {
 			return
 		}
@@ -903,7 +910,7 @@ func (this *SipURIImpl) SetTTLParam(ttl int) error {
 	}
 	if this.uriParms != nil {
 		this.uriParms.Delete("ttl")
-		nv := core.NewNameValue("ttl", ttl)
+		nv := core.NewNameValue("ttl", strconv.Itoa(ttl))
 		this.uriParms.AddNameValue(nv)
 	}
 
-- 
2.43.0


From e428baa05a21053f354a9b257d602cc81d416281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:39 +0000
Subject: [PATCH 09/57] fix: address: telephone URLs and addresses without
 parts do not panic

---
 sip/address/AddressImpl.go    |  9 ++++++---
 sip/address/TelURLImpl.go     |  1 +
 sip/address/TelphoneNumber.go | 12 ++++++------
 3 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/sip/address/AddressImpl.go b/sip/address/AddressImpl.go
index 83ae069..0bbec30 100644
--- a/sip/address/AddressImpl.go
+++ b/sip/address/AddressImpl.go
@@ -78,7 +78,7 @@ func (this *AddressImpl) GetHostPort() (hp *core.HostPort, RuntimeException erro
  */
 func (this *AddressImpl) GetPort() (int, error) {
 	if sipuri, ok := this.address.(*SipURIImpl); ok {
-		return sipuri.GetHostPort().GetPort(), nil
+		return sipuri.GetPort(), nil
 	}
 	return -1, errors.New("RuntimeException: address is not a SipURIImpl")
 }
@@ -92,7 +92,7 @@ func (this *AddressImpl) GetPort() (int, error) {
  */
 func (this *AddressImpl) GetUserAtHostPort() string {
 	if sipuri, ok := this.address.(*SipURIImpl); ok {
-		sipuri.GetUserAtHostPort()
+		return sipuri.GetUserAtHostPort()
 	}
 	return this.address.String()
 }
@@ -103,6 +103,9 @@ func (this *AddressImpl) GetUserAtHostPort() string {
  */
 func (this *AddressImpl) GetHost() (string, error) {
 	if sipuri, ok := this.address.(*SipURIImpl); ok {
+		if sipuri.GetHostPort() == nil || sipuri.GetHostPort().GetHost() == nil {
+			return "", nil
+		}
 		return sipuri.GetHostPort().GetHost().GetHostName(), nil
 	}
 
@@ -241,7 +244,7 @@ func (this *AddressImpl) RemoveDisplayName() {
  *
  */
 func (this *AddressImpl) IsSIPAddress() bool {
-	_, ok := this.address.(SipURI)
+	_, ok := this.address.(*SipURIImpl)
 	return ok
 }
 
diff --git a/sip/address/TelURLImpl.go b/sip/address/TelURLImpl.go
index 0e88a76..cff99d7 100644
--- a/sip/address/TelURLImpl.go
+++ b/sip/address/TelURLImpl.go
@@ -19,6 +19,7 @@ func NewTelURLImpl() *TelURLImpl {
 	this := &TelURLImpl{}
 
 	this.scheme = "tel"
+	this.telephoneNumber = NewTelephoneNumber()
 
 	return this
 }
diff --git a/sip/address/TelphoneNumber.go b/sip/address/TelphoneNumber.go
index 0f5bcca..b550902 100644
--- a/sip/address/TelphoneNumber.go
+++ b/sip/address/TelphoneNumber.go
@@ -49,7 +49,7 @@ func (this *TelephoneNumber) GetPhoneNumber() string {
  * @return String
  */
 func (this *TelephoneNumber) GetPostDial() string {
-	return this.parms.GetValue(core.SIPTransportNames_POSTDIAL).(string)
+	return this.GetParameter(core.SIPTransportNames_POSTDIAL)
 }
 
 /**
@@ -57,14 +57,14 @@ func (this *TelephoneNumber) GetPostDial() string {
  * @return String
  */
 func (this *TelephoneNumber) GetIsdnSubaddress() string {
-	return this.parms.GetValue(core.SIPTransportNames_ISUB).(string)
+	return this.GetParameter(core.SIPTransportNames_ISUB)
 }
 
 /** returns true if th PostDial field exists
  * @return boolean
  */
 func (this *TelephoneNumber) HasPostDial() bool {
-	return this.parms.GetValue(core.SIPTransportNames_POSTDIAL) != nil
+	return this.HasParm(core.SIPTransportNames_POSTDIAL)
 }
 
 /** return true if this header has parameters.
@@ -124,7 +124,7 @@ func (this *TelephoneNumber) SetGlobal(g bool) {
  */
 func (this *TelephoneNumber) SetPostDial(p string) {
 	nv := core.NewNameValue(core.SIPTransportNames_POSTDIAL, p)
-	this.parms.AddNameValue(nv)
+	this.parms.SetNameValue(nv)
 }
 
 /** set the specified parameter
@@ -133,7 +133,7 @@ func (this *TelephoneNumber) SetPostDial(p string) {
  */
 func (this *TelephoneNumber) SetParm(name string, value interface{}) {
 	nv := core.NewNameValue(name, value)
-	this.parms.AddNameValue(nv)
+	this.parms.SetNameValue(nv)
 }
 
 /**
@@ -214,5 +214,5 @@ func (this *TelephoneNumber) RemoveParameter(parameter string) {
 
 func (this *TelephoneNumber) SetParameter(name, value string) {
 	nv := core.NewNameValue(name, value)
-	this.parms.AddNameValue(nv)
+	this.parms.SetNameValue(nv)
 }
-- 
2.43.0


From 74fa9f0fb09e9d699f75213d98acd187e6d1bf36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:39 +0000
Subject: [PATCH 10/57] fix: header: authentication parameters are quoted and
 counted as the standard says

---
 sip/header/AuthenticationImpl.go     | 101 ++++++++++++++++-----------
 sip/header/AuthenticationInfoImpl.go |  69 +++++++++---------
 sip/header/Challenge.go              |  25 +++----
 3 files changed, 108 insertions(+), 87 deletions(-)

diff --git a/sip/header/AuthenticationImpl.go b/sip/header/AuthenticationImpl.go
index 49a5481..16789e5 100644
--- a/sip/header/AuthenticationImpl.go
+++ b/sip/header/AuthenticationImpl.go
@@ -43,28 +43,33 @@ func (this *Authentication) SetParameter(name, value string) error {
 	if name == "" {
 		return errors.New("NullPointerException: null name")
 	}
-	nv := this.parameters.GetNameValue(strings.ToLower(name))
-	if nv == nil {
+	nv := this.parameters.GetNameValue(name)
+	isNew := nv == nil
+	if isNew {
 		nv = core.NewNameValue(name, value)
-		if strings.ToLower(name) == (ParameterNames_QOP) ||
-			strings.ToLower(name) == (ParameterNames_REALM) ||
-			strings.ToLower(name) == (ParameterNames_CNONCE) ||
-			strings.ToLower(name) == (ParameterNames_NONCE) ||
-			strings.ToLower(name) == (ParameterNames_USERNAME) ||
-			strings.ToLower(name) == (ParameterNames_DOMAIN) ||
-			strings.ToLower(name) == (ParameterNames_OPAQUE) ||
-			strings.ToLower(name) == (ParameterNames_NEXT_NONCE) ||
-			strings.ToLower(name) == (ParameterNames_URI) ||
-			strings.ToLower(name) == (ParameterNames_ALGORITHM) ||
-			strings.ToLower(name) == (ParameterNames_RESPONSE) {
-			//if value == "" {//TODO by LY
-			//	return errors.New("NullPointerException: null value")
-			//}
-			if strings.HasPrefix(value, core.SIPSeparatorNames_DOUBLE_QUOTE) {
-				return errors.New("ParseException: " + value + " : Unexpected DOUBLE_QUOTE")
-			}
-			nv.SetQuotedValue()
+	}
+	if strings.ToLower(name) == (ParameterNames_QOP) ||
+		strings.ToLower(name) == (ParameterNames_REALM) ||
+		strings.ToLower(name) == (ParameterNames_CNONCE) ||
+		strings.ToLower(name) == (ParameterNames_NONCE) ||
+		strings.ToLower(name) == (ParameterNames_USERNAME) ||
+		strings.ToLower(name) == (ParameterNames_DOMAIN) ||
+		strings.ToLower(name) == (ParameterNames_OPAQUE) ||
+		strings.ToLower(name) == (ParameterNames_NEXT_NONCE) ||
+		strings.ToLower(name) == (ParameterNames_URI) ||
+		strings.ToLower(name) == (ParameterNames_ALGORITHM) ||
+		strings.ToLower(name) == (ParameterNames_RESPONSE) {
+		//if value == "" {//TODO by LY
+		//	return errors.New("NullPointerException: null value")
+		//}
+		if strings.HasPrefix(value, core.SIPSeparatorNames_DOUBLE_QUOTE) {
+			return errors.New("ParseException: " + value + " : Unexpected DOUBLE_QUOTE")
 		}
+		nv.SetQuotedValue()
+	} else if !isToken(value) {
+		nv.SetQuotedValue()
+	}
+	if isNew {
 		this.parameters.SetNameValue(nv)
 	} else {
 		nv.SetValue(value)
@@ -134,8 +139,7 @@ func (this *Authentication) SetRealm(realm string) (ParseException error) {
 	if realm == "" {
 		return errors.New("NullPointerException: The realm parameter is null")
 	}
-	this.SetParameter(ParameterNames_REALM, realm)
-	return nil
+	return this.SetParameter(ParameterNames_REALM, realm)
 }
 
 /**
@@ -163,8 +167,7 @@ func (this *Authentication) SetNonce(nonce string) (ParseException error) {
 	if nonce == "" {
 		return errors.New("NullPointerException: The nonce parameter is null")
 	}
-	this.SetParameter(ParameterNames_NONCE, nonce)
-	return nil
+	return this.SetParameter(ParameterNames_NONCE, nonce)
 }
 
 /**
@@ -206,7 +209,10 @@ func (this *Authentication) SetURI(uri address.URI) error {
  */
 func (this *Authentication) GetURI() address.URI {
 	url := this.GetParameter(ParameterNames_URI)
-	return address.NewURIImpl(url)
+	if uri := address.NewURIImpl(url); uri != nil {
+		return uri
+	}
+	return nil
 }
 
 /**
@@ -222,8 +228,7 @@ func (this *Authentication) SetAlgorithm(algorithm string) (ParseException error
 	if algorithm == "" {
 		return errors.New("NullPointerException: null arg")
 	}
-	this.SetParameter(ParameterNames_ALGORITHM, algorithm)
-	return nil
+	return this.SetParameter(ParameterNames_ALGORITHM, algorithm)
 }
 
 /**
@@ -250,8 +255,7 @@ func (this *Authentication) SetQop(qop string) (ParseException error) {
 	if qop == "" {
 		return errors.New("NullPointerException: null arg")
 	}
-	this.SetParameter(ParameterNames_QOP, qop)
-	return nil
+	return this.SetParameter(ParameterNames_QOP, qop)
 }
 
 /**
@@ -278,8 +282,7 @@ func (this *Authentication) SetOpaque(opaque string) (ParseException error) {
 	if opaque == "" {
 		return errors.New("NullPointerException: null arg")
 	}
-	this.SetParameter(ParameterNames_OPAQUE, opaque)
-	return nil
+	return this.SetParameter(ParameterNames_OPAQUE, opaque)
 }
 
 /**
@@ -306,8 +309,7 @@ func (this *Authentication) SetDomain(domain string) (ParseException error) {
 	if domain == "" {
 		return errors.New("NullPointerException: null arg")
 	}
-	this.SetParameter(ParameterNames_DOMAIN, domain)
-	return nil
+	return this.SetParameter(ParameterNames_DOMAIN, domain)
 }
 
 /**
@@ -358,8 +360,7 @@ func (this *Authentication) IsStale() bool {
  * @param cnonce -- a nonce string.
  */
 func (this *Authentication) SetCNonce(cnonce string) (ParseException error) {
-	this.SetParameter(ParameterNames_CNONCE, cnonce)
-	return nil
+	return this.SetParameter(ParameterNames_CNONCE, cnonce)
 }
 
 /** Get the CNonce.
@@ -373,7 +374,10 @@ func (this *Authentication) GetCNonce() string {
 func (this *Authentication) GetNonceCount() int {
 	//return this.GetParameterAsHexInt(ParameterNames_NC);
 	s := this.GetParameter(ParameterNames_NONCE_COUNT)
-	nCount, _ := strconv.ParseInt(s, 10, 32)
+	nCount, err := strconv.ParseInt(s, 16, 64)
+	if err != nil {
+		return -1
+	}
 	return int(nCount)
 }
 
@@ -382,7 +386,7 @@ func (this *Authentication) GetNonceCount() int {
  */
 
 func (this *Authentication) SetNonceCount(nonceCount int) (ParseException error) {
-	if nonceCount < 0 {
+	if nonceCount < 0 || nonceCount > 0xffffffff {
 		return errors.New("ParseException: bad value")
 	}
 
@@ -390,8 +394,7 @@ func (this *Authentication) SetNonceCount(nonceCount int) (ParseException error)
 
 	base := "00000000"
 	nc = base[0:8-len(nc)] + nc
-	this.SetParameter(ParameterNames_NC, nc)
-	return nil
+	return this.SetParameter(ParameterNames_NC, nc)
 }
 
 /**
@@ -400,7 +403,7 @@ func (this *Authentication) SetNonceCount(nonceCount int) (ParseException error)
  * @return String response parameter value.
  */
 func (this *Authentication) GetResponse() string {
-	return this.GetParameterValue(ParameterNames_RESPONSE)
+	return this.GetParameter(ParameterNames_RESPONSE)
 }
 
 /** Set the Response.
@@ -412,8 +415,7 @@ func (this *Authentication) SetResponse(response string) (ParseException error)
 		return errors.New("NullPointerException: Null parameter")
 	}
 
-	this.SetParameter(ParameterNames_RESPONSE, response)
-	return nil
+	return this.SetParameter(ParameterNames_RESPONSE, response)
 }
 
 /**
@@ -447,3 +449,18 @@ func (this *Authentication) GetUsername() string {
 func (this *Authentication) SetUsername(username string) (ParseException error) {
 	return this.SetParameter(ParameterNames_USERNAME, username)
 }
+
+// isToken tells whether a value can be written without quotes.
+func isToken(value string) bool {
+	if value == "" {
+		return false
+	}
+	for i := 0; i < len(value); i++ {
+		ch := value[i]
+		if !(ch >= 'a' && ch <= 'z' || ch >= 'A' && ch <= 'Z' || ch >= '0' && ch <= '9' ||
+			strings.IndexByte("-.!%*_+`'~", ch) >= 0) {
+			return false
+		}
+	}
+	return true
+}
diff --git a/sip/header/AuthenticationInfoImpl.go b/sip/header/AuthenticationInfoImpl.go
index 4daa226..274b7f3 100644
--- a/sip/header/AuthenticationInfoImpl.go
+++ b/sip/header/AuthenticationInfoImpl.go
@@ -87,7 +87,10 @@ func (this *AuthenticationInfo) GetNextNonce() string {
  */
 func (this *AuthenticationInfo) GetNonceCount() int {
 	s := this.GetParameter(ParameterNames_NONCE_COUNT)
-	nCount, _ := strconv.ParseInt(s, 10, 32)
+	nCount, err := strconv.ParseInt(s, 16, 64)
+	if err != nil {
+		return -1
+	}
 	return int(nCount)
 }
 
@@ -119,8 +122,7 @@ func (this *AuthenticationInfo) GetResponse() string {
  *
  */
 func (this *AuthenticationInfo) SetCNonce(cNonce string) (ParseException error) {
-	this.SetParameter(ParameterNames_CNONCE, cNonce)
-	return nil
+	return this.SetParameter(ParameterNames_CNONCE, cNonce)
 }
 
 /** Sets the NextNonce of the AuthenticationInfoHeader to the <var>nextNonce</var>
@@ -132,8 +134,7 @@ func (this *AuthenticationInfo) SetCNonce(cNonce string) (ParseException error)
  *
  */
 func (this *AuthenticationInfo) SetNextNonce(nextNonce string) (ParseException error) {
-	this.SetParameter(ParameterNames_NEXT_NONCE, nextNonce)
-	return nil
+	return this.SetParameter(ParameterNames_NEXT_NONCE, nextNonce)
 }
 
 /** Sets the Nonce Count of the AuthenticationInfoHeader to the <var>nonceCount</var>
@@ -145,15 +146,14 @@ func (this *AuthenticationInfo) SetNextNonce(nextNonce string) (ParseException e
  *
  */
 func (this *AuthenticationInfo) SetNonceCount(nonceCount int) (ParseException error) {
-	if nonceCount < 0 {
+	if nonceCount < 0 || nonceCount > 0xffffffff {
 		return errors.New("ParseException: bad value")
 	}
 	nc := strconv.FormatUint(uint64(nonceCount), 16)
 
 	base := "00000000"
 	nc = base[0:8-len(nc)] + nc
-	this.SetParameter(ParameterNames_NC, nc)
-	return nil
+	return this.SetParameter(ParameterNames_NC, nc)
 }
 
 /** Sets the Qop value of the AuthenticationInfoHeader to the new
@@ -165,8 +165,7 @@ func (this *AuthenticationInfo) SetNonceCount(nonceCount int) (ParseException er
  *
  */
 func (this *AuthenticationInfo) SetQop(qop string) (ParseException error) {
-	this.SetParameter(ParameterNames_QOP, qop)
-	return nil
+	return this.SetParameter(ParameterNames_QOP, qop)
 }
 
 /** Sets the Response of the
@@ -180,8 +179,7 @@ func (this *AuthenticationInfo) SetQop(qop string) (ParseException error) {
  *
  */
 func (this *AuthenticationInfo) SetResponse(response string) (ParseException error) {
-	this.SetParameter(ParameterNames_RESPONSE, response)
-	return nil
+	return this.SetParameter(ParameterNames_RESPONSE_AUTH, response)
 }
 
 func (this *AuthenticationInfo) SetParameter(name, value string) error {
@@ -189,29 +187,34 @@ func (this *AuthenticationInfo) SetParameter(name, value string) error {
 		return errors.New("NullPointerException: null name")
 	}
 
-	nv := this.parameters.GetNameValue(strings.ToLower(name))
-	if nv == nil {
+	nv := this.parameters.GetNameValue(name)
+	isNew := nv == nil
+	if isNew {
 		nv = core.NewNameValue(name, value)
-		if strings.ToLower(name) == (ParameterNames_QOP) ||
-			strings.ToLower(name) == (ParameterNames_NEXT_NONCE) ||
-			strings.ToLower(name) == (ParameterNames_REALM) ||
-			strings.ToLower(name) == (ParameterNames_CNONCE) ||
-			strings.ToLower(name) == (ParameterNames_NONCE) ||
-			strings.ToLower(name) == (ParameterNames_OPAQUE) ||
-			strings.ToLower(name) == (ParameterNames_USERNAME) ||
-			strings.ToLower(name) == (ParameterNames_DOMAIN) ||
-			strings.ToLower(name) == (ParameterNames_NEXT_NONCE) ||
-			strings.ToLower(name) == (ParameterNames_ALGORITHM) ||
-			strings.ToLower(name) == (ParameterNames_RESPONSE_AUTH) {
-			//if value == "" {//TODO by LY
-			//	return errors.New("NullPointerException: null value")
-			//}
-			if strings.HasPrefix(value, core.SIPSeparatorNames_DOUBLE_QUOTE) {
-				return errors.New("ParseException: " +
-					value + " : Unexpected DOUBLE_QUOTE")
-			}
-			nv.SetQuotedValue()
+	}
+	if strings.ToLower(name) == (ParameterNames_QOP) ||
+		strings.ToLower(name) == (ParameterNames_NEXT_NONCE) ||
+		strings.ToLower(name) == (ParameterNames_REALM) ||
+		strings.ToLower(name) == (ParameterNames_CNONCE) ||
+		strings.ToLower(name) == (ParameterNames_NONCE) ||
+		strings.ToLower(name) == (ParameterNames_OPAQUE) ||
+		strings.ToLower(name) == (ParameterNames_USERNAME) ||
+		strings.ToLower(name) == (ParameterNames_DOMAIN) ||
+		strings.ToLower(name) == (ParameterNames_NEXT_NONCE) ||
+		strings.ToLower(name) == (ParameterNames_ALGORITHM) ||
+		strings.ToLower(name) == (ParameterNames_RESPONSE_AUTH) {
+		//if value == "" {//TODO by LY
+		//	return errors.New("NullPointerException: null value")
+		//}
+		if strings.HasPrefix(value, core.SIPSeparatorNames_DOUBLE_QUOTE) {
+			return errors.New("ParseException: " +
+				value + " : Unexpected DOUBLE_QUOTE")
 		}
+		nv.SetQuotedValue()
+	} else if !isToken(value) {
+		nv.SetQuotedValue()
+	}
+	if isNew {
 		this.parameters.SetNameValue(nv)
 	} else {
 		nv.SetValue(value)
diff --git a/sip/header/Challenge.go b/sip/header/Challenge.go
index 806c057..a95c84d 100644
--- a/sip/header/Challenge.go
+++ b/sip/header/Challenge.go
@@ -50,70 +50,70 @@ func (this *Challenge) GetAuthParams() *core.NameValueList {
  * @return String
  */
 func (this *Challenge) GetDomain() string {
-	return this.authParams.GetValue(ParameterNames_DOMAIN).(string)
+	return this.authParams.GetParameter(ParameterNames_DOMAIN)
 }
 
 /** Get the URI field
  * @return String
  */
 func (this *Challenge) GetURI() string {
-	return this.authParams.GetValue(ParameterNames_URI).(string)
+	return this.authParams.GetParameter(ParameterNames_URI)
 }
 
 /** Get the Opaque field
  * @return String
  */
 func (this *Challenge) GetOpaque() string {
-	return this.authParams.GetValue(ParameterNames_OPAQUE).(string)
+	return this.authParams.GetParameter(ParameterNames_OPAQUE)
 }
 
 /** Get QOP value
  * @return String
  */
 func (this *Challenge) GetQOP() string {
-	return this.authParams.GetValue(ParameterNames_QOP).(string)
+	return this.authParams.GetParameter(ParameterNames_QOP)
 }
 
 /** Get the Algorithm value.
  * @return String
  */
 func (this *Challenge) GetAlgorithm() string {
-	return this.authParams.GetValue(ParameterNames_ALGORITHM).(string)
+	return this.authParams.GetParameter(ParameterNames_ALGORITHM)
 }
 
 /** Get the State value.
  * @return String
  */
 func (this *Challenge) GetStale() string {
-	return this.authParams.GetValue(ParameterNames_STALE).(string)
+	return this.authParams.GetParameter(ParameterNames_STALE)
 }
 
 /** Get the Signature value.
  * @return String
  */
 func (this *Challenge) GetSignature() string {
-	return this.authParams.GetValue(ParameterNames_SIGNATURE).(string)
+	return this.authParams.GetParameter(ParameterNames_SIGNATURE)
 }
 
 /** Get the signedBy value.
  * @return String
  */
 func (this *Challenge) GetSignedBy() string {
-	return this.authParams.GetValue(ParameterNames_SIGNED_BY).(string)
+	return this.authParams.GetParameter(ParameterNames_SIGNED_BY)
 }
 
 /** Get the Response value.
  * @return String
  */
 func (this *Challenge) GetResponse() string {
-	return this.authParams.GetValue(ParameterNames_RESPONSE).(string)
+	return this.authParams.GetParameter(ParameterNames_RESPONSE)
 }
 
 /** Get the realm value.
  * @return String.
  */
 func (this *Challenge) GetRealm() string {
-	return this.authParams.GetValue(ParameterNames_REALM).(string)
+	return this.authParams.GetParameter(ParameterNames_REALM)
 }
 
 /** Get the specified parameter
@@ -121,7 +121,7 @@ func (this *Challenge) GetRealm() string {
  * @return String to Set
  */
 func (this *Challenge) GetParameter(name string) string {
-	return this.authParams.GetValue(name).(string)
+	return this.authParams.GetParameter(name)
 }
 
 /** boolean function
@@ -152,13 +152,14 @@ func (this *Challenge) RemoveParameter(name string) bool {
  */
 func (this *Challenge) RemoveParameters() {
 	this.authParams = core.NewNameValueList("authParams")
+	this.authParams.SetSeparator(core.SIPSeparatorNames_COMMA)
 }
 
 /** Set the specified parameter
  * @param nv NameValue to Set
  */
 func (this *Challenge) SetParameter(nv *core.NameValue) {
-	this.authParams.AddNameValue(nv)
+	this.authParams.SetNameValue(nv)
 }
 
 /**
-- 
2.43.0


From 80be9ffb99fd31d685d5951c584325db81bab51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:39 +0000
Subject: [PATCH 11/57] fix: header: q values that are not numbers are rejected

---
 sip/header/AcceptEncodingImpl.go | 2 +-
 sip/header/AcceptImpl.go         | 2 +-
 sip/header/AcceptLanguageImpl.go | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/sip/header/AcceptEncodingImpl.go b/sip/header/AcceptEncodingImpl.go
index 9007b4f..1b35f2d 100644
--- a/sip/header/AcceptEncodingImpl.go
+++ b/sip/header/AcceptEncodingImpl.go
@@ -138,7 +138,7 @@ func (this *AcceptEncoding) RemoveQValue() {
  *
  */
 func (this *AcceptEncoding) SetQValue(q float32) (InvalidArgumentException error) {
-	if q < 0.0 || q > 1.0 {
+	if !(q >= 0.0 && q <= 1.0) {
 		return errors.New("qvalue out of range!")
 	}
 	this.SetParameter(ParameterNames_Q, strconv.FormatFloat(float64(q), 'f', -1, 32))
diff --git a/sip/header/AcceptImpl.go b/sip/header/AcceptImpl.go
index 8fc1a99..e198607 100644
--- a/sip/header/AcceptImpl.go
+++ b/sip/header/AcceptImpl.go
@@ -174,7 +174,7 @@ func (this *Accept) RemoveQValue() {
  *
  */
 func (this *Accept) SetQValue(q float32) (InvalidArgumentException error) {
-	if q < 0.0 || q > 1.0 {
+	if !(q >= 0.0 && q <= 1.0) {
 		return errors.New("qvalue out of range!")
 	}
 	this.SetParameter(ParameterNames_Q, strconv.FormatFloat(float64(q), 'f', -1, 32))
diff --git a/sip/header/AcceptLanguageImpl.go b/sip/header/AcceptLanguageImpl.go
index 91769a6..7b76310 100644
--- a/sip/header/AcceptLanguageImpl.go
+++ b/sip/header/AcceptLanguageImpl.go
@@ -150,7 +150,7 @@ func (this *AcceptLanguage) RemoveQValue() {
  *
  */
 func (this *AcceptLanguage) SetQValue(q float32) (InvalidArgumentException error) {
-	if q < 0.0 || q > 1.0 {
+	if !(q >= 0.0 && q <= 1.0) {
 		return errors.New("qvalue out of range!")
 	}
 	this.SetParameter(ParameterNames_Q, strconv.FormatFloat(float64(q), 'f', -1, 32))
-- 
2.43.0


From 44b8ad6a364ea82d35fc203bfe23080cc0ab65ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:39 +0000
Subject: [PATCH 12/57] fix: header: Alert-Info, Call-Info and Error-Info take
 any URI

---
 sip/header/AlertInfoImpl.go | 4 ++--
 sip/header/CallInfoImpl.go  | 4 ++--
 sip/header/ErrorInfoImpl.go | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/sip/header/AlertInfoImpl.go b/sip/header/AlertInfoImpl.go
index b72f2b4..dbf11c9 100644
--- a/sip/header/AlertInfoImpl.go
+++ b/sip/header/AlertInfoImpl.go
@@ -14,7 +14,7 @@ type AlertInfo struct {
 
 	/** URI field
 	 */
-	uri *address.URIImpl
+	uri address.URI
 }
 
 /** Constructor
@@ -53,7 +53,7 @@ func (this *AlertInfo) EncodeBody() string {
  * @param u URI to set
  */
 func (this *AlertInfo) SetAlertInfo(uri address.URI) {
-	this.uri = uri.(*address.URIImpl)
+	this.uri = uri
 }
 
 /**
diff --git a/sip/header/CallInfoImpl.go b/sip/header/CallInfoImpl.go
index 11c4229..15f65fc 100644
--- a/sip/header/CallInfoImpl.go
+++ b/sip/header/CallInfoImpl.go
@@ -14,7 +14,7 @@ import (
 type CallInfo struct {
 	Parameters
 
-	info *address.URIImpl
+	info address.URI
 }
 
 /** Default constructor
@@ -80,5 +80,5 @@ func (this *CallInfo) SetPurpose(purpose string) error {
  * @param info is the URI to set.
  */
 func (this *CallInfo) SetInfo(info address.URI) {
-	this.info = info.(*address.URIImpl)
+	this.info = info
 }
diff --git a/sip/header/ErrorInfoImpl.go b/sip/header/ErrorInfoImpl.go
index d966bad..7eb9fd9 100644
--- a/sip/header/ErrorInfoImpl.go
+++ b/sip/header/ErrorInfoImpl.go
@@ -91,7 +91,7 @@ func (this *ErrorInfo) SetErrorMessage(message string) (ParseException error) {
 	if message == "" {
 		return errors.New("NullPointerException: the message parameter is null")
 	}
-	this.SetParameter("message", message)
+	this.SetQuotedParameter("message", message)
 	return nil
 }
 
-- 
2.43.0


From a95b7da786df8c3f47943ecf39ab18b712da4eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:40 +0000
Subject: [PATCH 13/57] fix: header: call identifiers keep their value when a
 setter fails

---
 sip/header/CallIdImpl.go     |  8 ++++++--
 sip/header/CallIdentifier.go |  8 +++++---
 sip/header/InReplyToImpl.go  | 10 +++++++---
 3 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/sip/header/CallIdImpl.go b/sip/header/CallIdImpl.go
index 58a901f..1323e3c 100644
--- a/sip/header/CallIdImpl.go
+++ b/sip/header/CallIdImpl.go
@@ -97,8 +97,12 @@ func (this *CallID) GetCallIdentifer() *CallIdentifier {
          * not a token@token.
 */
 func (this *CallID) SetCallId(cid string) (ParseException error) {
-	this.callIdentifier, ParseException = NewCallIdentifier(cid)
-	return ParseException
+	callIdentifier, ParseException := NewCallIdentifier(cid)
+	if ParseException != nil {
+		return ParseException
+	}
+	this.callIdentifier = callIdentifier
+	return nil
 }
 
 /**
diff --git a/sip/header/CallIdentifier.go b/sip/header/CallIdentifier.go
index 22c4a40..621a2c5 100644
--- a/sip/header/CallIdentifier.go
+++ b/sip/header/CallIdentifier.go
@@ -118,11 +118,13 @@ func (this *CallIdentifier) SetCallID(cid string) (IllegalArgumentException erro
 		this.localId = cid
 		this.host = ""
 	} else {
-		this.localId = cid[0:index]
-		this.host = cid[index+1 : len(cid)]
-		if this.localId == "" || this.host == "" {
+		localId := cid[0:index]
+		host := cid[index+1 : len(cid)]
+		if localId == "" || host == "" {
 			return errors.New("IllegalArgumentException: CallID  must be token@token or token")
 		}
+		this.localId = localId
+		this.host = host
 	}
 
 	return nil
diff --git a/sip/header/InReplyToImpl.go b/sip/header/InReplyToImpl.go
index 860460f..6c161d7 100644
--- a/sip/header/InReplyToImpl.go
+++ b/sip/header/InReplyToImpl.go
@@ -38,8 +38,12 @@ func NewInReplyToFromCallIdentifier(cid *CallIdentifier) *InReplyTo {
  * unexpectedly while parsing the callId value.
  */
 func (this *InReplyTo) SetCallId(callId string) (ParseException error) {
-	this.callId, ParseException = NewCallIdentifier(callId)
-	return ParseException
+	cid, ParseException := NewCallIdentifier(callId)
+	if ParseException != nil {
+		return ParseException
+	}
+	this.callId = cid
+	return nil
 }
 
 /**
@@ -66,5 +70,5 @@ func (this *InReplyTo) String() string {
  * @return String
  */
 func (this *InReplyTo) EncodeBody() string {
-	return this.callId.String()
+	return this.GetCallId()
 }
-- 
2.43.0


From c003ab47194a90d9f6eb0c9ceb0442a57a2407a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:40 +0000
Subject: [PATCH 14/57] fix: header: From, To, Contact, CSeq, Via and request
 line can be copied

---
 sip/header/CSeqImpl.go    |  5 +++++
 sip/header/ContactImpl.go | 17 ++++++++++++++---
 sip/header/FromImpl.go    | 19 ++++++++++++++++++-
 sip/header/RequestLine.go |  6 ++++++
 sip/header/ToImpl.go      | 10 +++++++++-
 sip/header/ViaImpl.go     | 36 +++++++++++++++++++++++++++++++-----
 6 files changed, 83 insertions(+), 10 deletions(-)

diff --git a/sip/header/CSeqImpl.go b/sip/header/CSeqImpl.go
index f2baa1d..081d83a 100644
--- a/sip/header/CSeqImpl.go
+++ b/sip/header/CSeqImpl.go
@@ -129,3 +129,8 @@ func (this *CSeq) SetMethod(meth string) (ParseException error) {
 func (this *CSeq) GetSequenceNumber() int {
 	return this.seqno
 }
+
+// Clone returns an independent copy of this header.
+func (this *CSeq) Clone() interface{} {
+	return NewCSeq(this.seqno, this.method)
+}
diff --git a/sip/header/ContactImpl.go b/sip/header/ContactImpl.go
index 0303f49..eec8bc4 100644
--- a/sip/header/ContactImpl.go
+++ b/sip/header/ContactImpl.go
@@ -113,8 +113,10 @@ func (this *Contact) GetExpires() int {
  */
 
 func (this *Contact) SetExpires(expiryDeltaSeconds int) (InvalidArgumentException error) {
-	this.parameters.AddNameValue(core.NewNameValue(ParameterNames_EXPIRES, strconv.Itoa(expiryDeltaSeconds)))
-	return nil
+	if expiryDeltaSeconds < 0 {
+		return errors.New("InvalidArgumentException: the expires parameter is < 0")
+	}
+	return this.SetParameter(ParameterNames_EXPIRES, strconv.Itoa(expiryDeltaSeconds))
 }
 
 /** set the Contact List
@@ -191,9 +193,18 @@ func (this *Contact) RemoveQValue() {
  *
  */
 func (this *Contact) SetQValue(q float32) (InvalidArgumentException error) {
-	if q < 0.0 || q > 1.0 {
+	if !(q >= 0.0 && q <= 1.0) {
 		return errors.New("qvalue out of range!")
 	}
 	this.SetParameter(ParameterNames_Q, strconv.FormatFloat(float64(q), 'f', -1, 32))
 	return nil
 }
+
+// Clone returns a copy of this header with its own parameters.
+func (this *Contact) Clone() interface{} {
+	retval := NewContact()
+	retval.addr = this.addr
+	retval.wildCardFlag = this.wildCardFlag
+	retval.parameters = this.parameters.Clone().(*core.NameValueList)
+	return retval
+}
diff --git a/sip/header/FromImpl.go b/sip/header/FromImpl.go
index 4f2b0d9..24aad97 100644
--- a/sip/header/FromImpl.go
+++ b/sip/header/FromImpl.go
@@ -32,7 +32,7 @@ func (this *From) super(name string) {
 func (this *From) CloneTo(to *To) {
 	this.super(core.SIPHeaderNames_FROM)
 	this.addr = to.addr
-	this.parameters = to.parameters
+	this.parameters = to.parameters.Clone().(*core.NameValueList)
 }
 
 /**
@@ -73,6 +73,9 @@ func (this *From) String() string {
  * @return String
  */
 func (this *From) EncodeBody() string {
+	if this.addr == nil {
+		return ""
+	}
 	var retval bytes.Buffer
 	addr, _ := this.addr.(*address.AddressImpl)
 	if addr.GetAddressType() == address.ADDRESS_SPEC {
@@ -108,6 +111,9 @@ func (this *From) GetHostPort() (*core.HostPort, error) {
  * @return Display name
  */
 func (this *From) GetDisplayName() string {
+	if this.addr == nil {
+		return ""
+	}
 	return this.addr.GetDisplayName()
 }
 
@@ -164,6 +170,17 @@ func (this *From) SetTag(t string) (ParseException error) {
 /** Get the user@host port string.
  */
 func (this *From) GetUserAtHostPort() string {
+	if this.addr == nil {
+		return ""
+	}
 	addr, _ := this.addr.(*address.AddressImpl)
 	return addr.GetUserAtHostPort()
 }
+
+// Clone returns a copy of this header with its own parameters.
+func (this *From) Clone() interface{} {
+	retval := NewFrom()
+	retval.addr = this.addr
+	retval.parameters = this.parameters.Clone().(*core.NameValueList)
+	return retval
+}
diff --git a/sip/header/RequestLine.go b/sip/header/RequestLine.go
index d05c040..0f35acd 100644
--- a/sip/header/RequestLine.go
+++ b/sip/header/RequestLine.go
@@ -198,3 +198,9 @@ func (this *RequestLine) GetVersionMinor() string {
 //     return retval;
 
 // }
+
+// Clone returns a copy of this request line.
+func (this *RequestLine) Clone() interface{} {
+	retval := *this
+	return &retval
+}
diff --git a/sip/header/ToImpl.go b/sip/header/ToImpl.go
index 0882f7c..e09498b 100644
--- a/sip/header/ToImpl.go
+++ b/sip/header/ToImpl.go
@@ -32,7 +32,7 @@ func (this *To) super(name string) {
 func (this *To) CloneFrom(from *From) {
 	this.super(core.SIPHeaderNames_TO)
 	this.SetAddress(from.addr)
-	this.SetParameters(from.parameters)
+	this.SetParameters(from.parameters.Clone().(*core.NameValueList))
 }
 
 /**
@@ -174,3 +174,11 @@ func (this *To) GetUserAtHostPort() string {
 	addr, _ := this.addr.(*address.AddressImpl)
 	return addr.GetUserAtHostPort()
 }
+
+// Clone returns a copy of this header with its own parameters.
+func (this *To) Clone() interface{} {
+	retval := NewTo()
+	retval.addr = this.addr
+	retval.parameters = this.parameters.Clone().(*core.NameValueList)
+	return retval
+}
diff --git a/sip/header/ViaImpl.go b/sip/header/ViaImpl.go
index 881c7d8..160e390 100644
--- a/sip/header/ViaImpl.go
+++ b/sip/header/ViaImpl.go
@@ -111,7 +111,7 @@ func (this *Via) GetComment() string {
  * @return maddr parameter.
  */
 func (this *Via) GetMaddr() *core.Host {
-	return this.parameters.GetValue(ParameterNames_MADDR).(*core.Host)
+	return core.NewHost(this.GetMAddr())
 }
 
 /** port of the Via Header.
@@ -135,7 +135,9 @@ func (this *Via) HasComment() bool {
 /** remove the port.
  */
 func (this *Via) RemovePort() {
-	this.sentBy = nil
+	if this.sentBy != nil {
+		this.sentBy.RemovePort()
+	}
 }
 
 /** remove the comment field.
@@ -200,7 +202,9 @@ func (this *Via) EncodeBody() string {
 	var encoding bytes.Buffer
 	encoding.WriteString(this.sentProtocol.String())
 	encoding.WriteString(core.SIPSeparatorNames_SP)
-	encoding.WriteString(this.sentBy.String())
+	if this.sentBy != nil {
+		encoding.WriteString(this.sentBy.String())
+	}
 	// Add the default port if there is no port specified.
 	// if !this.sentBy.HasPort() {
 	// 	encoding.WriteString(core.SIPSeparatorNames_COLON)
@@ -354,7 +358,10 @@ func (this *Via) SetProtocol(protocol string) (ParseException error) {
  * @return the integer value of the <code>ttl</code> parameter
  */
 func (this *Via) GetTTL() int {
-	ttl, _ := strconv.Atoi(this.GetParameter(ParameterNames_TTL))
+	ttl, err := strconv.Atoi(this.GetParameter(ParameterNames_TTL))
+	if err != nil {
+		return -1
+	}
 	return ttl
 }
 
@@ -367,7 +374,11 @@ func (this *Via) GetTTL() int {
  * greater than 255, excluding -1 the default not set value.
  */
 func (this *Via) SetTTL(ttl int) (InvalidArgumentException error) {
-	if ttl < 0 && ttl != -1 {
+	if ttl == -1 { // the default, not set
+		this.RemoveParameter(ParameterNames_TTL)
+		return nil
+	}
+	if ttl < 0 || ttl > 255 {
 		return errors.New("InvalidArgumentException: GoSIP Exception, Via, setTTL(), the ttl parameter is < 0")
 	}
 	this.SetParameter(ParameterNames_TTL, strconv.Itoa(ttl))
@@ -454,3 +465,18 @@ func (this *Via) SetBranch(branch string) (ParseException error) {
 	this.SetParameter(ParameterNames_BRANCH, branch)
 	return nil
 }
+
+// Clone returns an independent copy of this header.
+func (this *Via) Clone() interface{} {
+	retval := NewVia()
+	if this.sentProtocol != nil {
+		protocol := *this.sentProtocol
+		retval.sentProtocol = &protocol
+	}
+	if this.sentBy != nil {
+		retval.sentBy = this.sentBy.Clone().(*core.HostPort)
+	}
+	retval.comment = this.comment
+	retval.parameters = this.parameters.Clone().(*core.NameValueList)
+	return retval
+}
-- 
2.43.0


From b22cbcdc1edfbf65b733b783b11860e60905cf8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:40 +0000
Subject: [PATCH 15/57] fix: header: setters and encoders of single-valued
 headers

---
 sip/header/DateImpl.go        | 5 ++++-
 sip/header/MaxForwardsImpl.go | 5 +++--
 sip/header/ParametersImpl.go  | 2 +-
 sip/header/RAckImpl.go        | 3 +++
 sip/header/ReasonImpl.go      | 9 ++++++---
 sip/header/RetryAfterImpl.go  | 4 +---
 sip/header/SIPHeaderList.go   | 2 +-
 sip/header/StatusLine.go      | 2 +-
 sip/header/TimeStampImpl.go   | 4 ++--
 sip/header/WarningImpl.go     | 8 ++------
 10 files changed, 24 insertions(+), 20 deletions(-)

diff --git a/sip/header/DateImpl.go b/sip/header/DateImpl.go
index 5c55b2d..9276b7c 100644
--- a/sip/header/DateImpl.go
+++ b/sip/header/DateImpl.go
@@ -33,7 +33,10 @@ func (this *Date) String() string {
  * @return String
  */
 func (this *Date) EncodeBody() string {
-	return this.date.Format(time.RFC1123)
+	if this.date == nil {
+		return ""
+	}
+	return this.date.UTC().Format("Mon, 02 Jan 2006 15:04:05 GMT")
 }
 
 /**
diff --git a/sip/header/MaxForwardsImpl.go b/sip/header/MaxForwardsImpl.go
index ba69b48..025ed78 100644
--- a/sip/header/MaxForwardsImpl.go
+++ b/sip/header/MaxForwardsImpl.go
@@ -72,8 +72,9 @@ func (this *MaxForwards) HasReachedZero() bool {
 /** decrement MaxForwards field one by one.
  */
 func (this *MaxForwards) DecrementMaxForwards() error {
-	if this.maxForwards >= 0 {
-		this.maxForwards--
+	if this.maxForwards <= 0 {
+		return errors.New("TooManyHopsException: max-forwards has reached zero")
 	}
+	this.maxForwards--
 	return nil
 }
diff --git a/sip/header/ParametersImpl.go b/sip/header/ParametersImpl.go
index b674104..39002d7 100644
--- a/sip/header/ParametersImpl.go
+++ b/sip/header/ParametersImpl.go
@@ -114,7 +114,7 @@ func (this *Parameters) GetParameter(name string) string {
  *
  */
 func (this *Parameters) GetParameterValue(name string) string {
-	return this.parameters.GetValue(name).(string)
+	return this.parameters.GetParameter(name)
 }
 
 /**
diff --git a/sip/header/RAckImpl.go b/sip/header/RAckImpl.go
index b8b9e07..1a2fdf9 100644
--- a/sip/header/RAckImpl.go
+++ b/sip/header/RAckImpl.go
@@ -87,6 +87,9 @@ func (this *RAck) SetCSeqNumber(cSeqNumber int) (InvalidArgumentException error)
  * unexpectedly while parsing the method value.
  */
 func (this *RAck) SetMethod(method string) (ParseException error) {
+	if method == "" {
+		return errors.New("NullPointerException: the method parameter is null")
+	}
 	this.method = method
 	return nil
 }
diff --git a/sip/header/ReasonImpl.go b/sip/header/ReasonImpl.go
index 1b74e2e..b5e4cce 100644
--- a/sip/header/ReasonImpl.go
+++ b/sip/header/ReasonImpl.go
@@ -3,6 +3,7 @@ package header
 import (
 	"bytes"
 	"github.com/use-go/gosips/core"
+	"errors"
 	"strconv"
 )
 
@@ -36,8 +37,10 @@ func (this *Reason) GetCause() int {
  *@param cause - cause to Set.
  */
 func (this *Reason) SetCause(cause int) (InvalidArgumentException error) {
-	this.parameters.AddNameAndValue("cause", strconv.Itoa(cause))
-	return nil
+	if cause < 0 {
+		return errors.New("InvalidArgumentException: the cause parameter is < 0")
+	}
+	return this.SetParameter("cause", strconv.Itoa(cause))
 }
 
 /** Set the protocol
@@ -63,7 +66,7 @@ func (this *Reason) GetProtocol() string {
  *@param text -- string text to Set.
  */
 func (this *Reason) SetText(text string) (ParseException error) {
-	this.parameters.AddNameAndValue("text", text)
+	this.SetQuotedParameter("text", text)
 	return nil
 }
 
diff --git a/sip/header/RetryAfterImpl.go b/sip/header/RetryAfterImpl.go
index a881890..a3858f6 100644
--- a/sip/header/RetryAfterImpl.go
+++ b/sip/header/RetryAfterImpl.go
@@ -39,9 +39,7 @@ func (this *RetryAfter) String() string {
  */
 func (this *RetryAfter) EncodeBody() string {
 	var encoding bytes.Buffer
-	if this.retryAfter != 0 {
-		encoding.WriteString(strconv.Itoa(this.retryAfter))
-	}
+	encoding.WriteString(strconv.Itoa(this.retryAfter))
 	if this.comment != "" {
 		encoding.WriteString(core.SIPSeparatorNames_SP + "(")
 		encoding.WriteString(this.comment)
diff --git a/sip/header/SIPHeaderList.go b/sip/header/SIPHeaderList.go
index a9b1376..9f3a54d 100644
--- a/sip/header/SIPHeaderList.go
+++ b/sip/header/SIPHeaderList.go
@@ -83,7 +83,7 @@ func (this *SIPHeaderList) Concatenate(shl SIPHeaderLister, topFlag bool) {
 		}
 	} else {
 		//add given items to the end of the list.
-		for e := shl.Front(); e != nil; e = e.Next() {
+		for e := shl.Back(); e != nil; e = e.Prev() {
 			this.PushFront(e.Value.(Header))
 		}
 	}
diff --git a/sip/header/StatusLine.go b/sip/header/StatusLine.go
index 353146f..957699d 100644
--- a/sip/header/StatusLine.go
+++ b/sip/header/StatusLine.go
@@ -78,7 +78,7 @@ func (this *StatusLine) SetMatchStatusClass(flag bool) {
  */
 func (this *StatusLine) String() string {
 	var encoding bytes.Buffer
-	encoding.WriteString(SIPConstants_SIP_VERSION_STRING + core.SIPSeparatorNames_SP + strconv.Itoa(this.statusCode) + core.SIPSeparatorNames_SP)
+	encoding.WriteString(this.sipVersion + core.SIPSeparatorNames_SP + strconv.Itoa(this.statusCode) + core.SIPSeparatorNames_SP)
 	if this.reasonPhrase != "" {
 		encoding.WriteString(this.reasonPhrase)
 	}
diff --git a/sip/header/TimeStampImpl.go b/sip/header/TimeStampImpl.go
index 2ccee9b..524312c 100644
--- a/sip/header/TimeStampImpl.go
+++ b/sip/header/TimeStampImpl.go
@@ -70,7 +70,7 @@ func (this *TimeStamp) RemoveDelay() {
  * negative value.
  */
 func (this *TimeStamp) SetTimeStamp(timeStamp float32) (InvalidArgumentException error) {
-	if timeStamp < 0 {
+	if !(timeStamp >= 0) {
 		return errors.New("InvalidArgumentException: the timeStamp parameter is <0")
 	}
 	this.timeStamp = timeStamp
@@ -106,7 +106,7 @@ func (this *TimeStamp) GetDelay() float32 {
  */
 
 func (this *TimeStamp) SetDelay(delay float32) (InvalidArgumentException error) {
-	if delay < 0 && delay != -1 {
+	if !(delay >= 0) && delay != -1 {
 		return errors.New("InvalidArgumentException: the delay parameter is <0")
 	}
 	this.delay = delay
diff --git a/sip/header/WarningImpl.go b/sip/header/WarningImpl.go
index 3e70275..97173e0 100644
--- a/sip/header/WarningImpl.go
+++ b/sip/header/WarningImpl.go
@@ -47,12 +47,8 @@ func (this *Warning) String() string {
  *@return the string encoding of the header value.
  */
 func (this *Warning) EncodeBody() string {
-	if this.text != "" {
-		return strconv.Itoa(this.code) + core.SIPSeparatorNames_SP + this.agent +
-			core.SIPSeparatorNames_SP + core.SIPSeparatorNames_DOUBLE_QUOTE + this.text + core.SIPSeparatorNames_DOUBLE_QUOTE
-	} else {
-		return strconv.Itoa(this.code) + core.SIPSeparatorNames_SP + this.agent
-	}
+	return strconv.Itoa(this.code) + core.SIPSeparatorNames_SP + this.agent +
+		core.SIPSeparatorNames_SP + core.SIPSeparatorNames_DOUBLE_QUOTE + this.text + core.SIPSeparatorNames_DOUBLE_QUOTE
 }
 
 /**
-- 
2.43.0


From 6a2e65f0aac4af9a41bfe84a4c82d71103155c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:40 +0000
Subject: [PATCH 16/57] fix: message: attaching, reading and deriving messages

---
 sip/message/SIPMessage.go | 313 +++++++++++++++++++++++++-------------
 1 file changed, 210 insertions(+), 103 deletions(-)

diff --git a/sip/message/SIPMessage.go b/sip/message/SIPMessage.go
index 2a05d3a..27615f2 100644
--- a/sip/message/SIPMessage.go
+++ b/sip/message/SIPMessage.go
@@ -3,7 +3,9 @@ package message
 import (
 	"bytes"
 	"container/list"
+	"crypto/md5"
 	"errors"
+	"strconv"
 	"strings"
 
 	"github.com/use-go/gosips/core"
@@ -118,24 +120,39 @@ func (this *SIPMessage) IsResponseHeader(sipHeader header.Header) bool {
 	if _, ok = sipHeader.(*header.ErrorInfo); ok {
 		return true
 	}
+	if _, ok = sipHeader.(*header.ErrorInfoList); ok {
+		return true
+	}
 	if _, ok = sipHeader.(*header.ProxyAuthenticate); ok {
 		return true
 	}
+	if _, ok = sipHeader.(*header.ProxyAuthenticateList); ok {
+		return true
+	}
 	if _, ok = sipHeader.(*header.Server); ok {
 		return true
 	}
 	if _, ok = sipHeader.(*header.Unsupported); ok {
 		return true
 	}
+	if _, ok = sipHeader.(*header.UnsupportedList); ok {
+		return true
+	}
 	if _, ok = sipHeader.(*header.RetryAfter); ok {
 		return true
 	}
 	if _, ok = sipHeader.(*header.Warning); ok {
 		return true
 	}
+	if _, ok = sipHeader.(*header.WarningList); ok {
+		return true
+	}
 	if _, ok = sipHeader.(*header.WWWAuthenticate); ok {
 		return true
 	}
+	if _, ok = sipHeader.(*header.WWWAuthenticateList); ok {
+		return true
+	}
 
 	return false
 }
@@ -358,7 +375,10 @@ func (this *SIPMessage) String() string {
 	}
 	//}
 
-	encoding.WriteString(this.contentLengthHeader.String() + core.SIPSeparatorNames_NEWLINE)
+	if this.contentLengthHeader != nil {
+		encoding.WriteString(this.contentLengthHeader.String())
+	}
+	encoding.WriteString(core.SIPSeparatorNames_NEWLINE)
 
 	if this.messageContentObject != nil {
 		mbody := this.GetContent()
@@ -599,12 +619,18 @@ func (this *SIPMessage) AttachHeader3(h header.Header, replaceFlag, top bool) er
 		return errors.New("NullPointerException: nil header")
 	}
 
+	// A header that may occur several times is kept in a list.
+	if l := newHeaderList(h); l != nil {
+		l.PushBack(h)
+		h = l
+	}
+
 	if replaceFlag {
-		delete(this.nameTable, strings.ToLower(h.GetName()))
+		this.RemoveHeader(h.GetName())
 	} else {
 		if _, present := this.nameTable[strings.ToLower(h.GetName())]; present {
 			if _, ok := h.(header.SIPHeaderLister); !ok {
-				if cl, ok := h.(*header.ContentLength); ok {
+				if cl, ok := h.(*header.ContentLength); ok && this.contentLengthHeader != nil {
 					this.contentLengthHeader.SetContentLength(cl.GetContentLength())
 				}
 				// Just ignore duplicate header.
@@ -613,25 +639,12 @@ func (this *SIPMessage) AttachHeader3(h header.Header, replaceFlag, top bool) er
 		}
 	}
 
-	originalHeader := this.GetHeader(h.GetName())
-
-	// Delete the original sh from our list structure.
-	if originalHeader != nil {
-		for li := this.headers.Front(); li != nil; li = li.Next() {
-			next := li.Value.(header.Header)
-			if next == originalHeader {
-				this.headers.Remove(li)
-			}
-		}
-	}
-
-	if this.GetHeader(h.GetName()) == nil {
+	if !this.HasHeader(h.GetName()) {
 		this.nameTable[strings.ToLower(h.GetName())] = h
 		this.headers.PushBack(h)
 	} else {
 		if hs, ok := h.(header.SIPHeaderLister); ok {
-			hdrlist := this.nameTable[strings.ToLower(h.GetName())].(header.SIPHeaderLister)
-			if hdrlist != nil {
+			if hdrlist, ok := this.nameTable[strings.ToLower(h.GetName())].(header.SIPHeaderLister); ok {
 				hdrlist.Concatenate(hs, top)
 			} else {
 				this.nameTable[strings.ToLower(h.GetName())] = h
@@ -676,44 +689,20 @@ func (this *SIPMessage) RemoveHeader2(headerName string, top bool) {
 
 	if hdrList, ok := toRemove.(header.SIPHeaderLister); ok {
 		if top {
-			first := hdrList.Front()
-			hdrList.Remove(first)
+			if first := hdrList.Front(); first != nil {
+				hdrList.Remove(first)
+			}
 		} else {
-			last := hdrList.Back()
-			hdrList.Remove(last)
+			if last := hdrList.Back(); last != nil {
+				hdrList.Remove(last)
+			}
 		}
 		// Clean up empty list
 		if hdrList.Len() == 0 {
-			for li := this.headers.Front(); li != nil; li = li.Next() {
-				sipHeader := li.Value.(header.Header)
-				if strings.ToLower(sipHeader.GetName()) == strings.ToLower(headerName) {
-					this.headers.Remove(li)
-				}
-			}
+			this.RemoveHeader(headerName)
 		}
 	} else {
-		delete(this.nameTable, strings.ToLower(headerName))
-		var ok bool
-		if _, ok = toRemove.(*header.From); ok {
-			this.fromHeader = nil
-		} else if _, ok = toRemove.(*header.To); ok {
-			this.toHeader = nil
-		} else if _, ok = toRemove.(*header.CSeq); ok {
-			this.cSeqHeader = nil
-		} else if _, ok = toRemove.(*header.CallID); ok {
-			this.callIdHeader = nil
-		} else if _, ok = toRemove.(*header.MaxForwards); ok {
-			this.maxForwardsHeader = nil
-		} else if _, ok = toRemove.(*header.ContentLength); ok {
-			this.contentLengthHeader = nil
-		}
-
-		for li := this.headers.Front(); li != nil; li = li.Next() {
-			sipHeader := li.Value.(header.Header)
-			if strings.ToLower(sipHeader.GetName()) == strings.ToLower(headerName) {
-				this.headers.Remove(li)
-			}
-		}
+		this.RemoveHeader(headerName)
 	}
 
 }
@@ -745,11 +734,13 @@ func (this *SIPMessage) RemoveHeader(headerName string) {
 		this.contentLengthHeader = nil
 	}
 
-	for li := this.headers.Front(); li != nil; li = li.Next() {
+	for li := this.headers.Front(); li != nil; {
+		next := li.Next()
 		sipHeader := li.Value.(header.Header)
 		if strings.ToLower(sipHeader.GetName()) == strings.ToLower(headerName) {
 			this.headers.Remove(li)
 		}
+		li = next
 	}
 }
 
@@ -775,15 +766,12 @@ func (this *SIPMessage) RemoveHeader(headerName string) {
  *	the same computed transaction identifier).
  */
 func (this *SIPMessage) GetTransactionId() string {
-	var topVia *header.Via
-	if this.GetViaHeaders().Len() > 0 {
-		topVia = this.GetViaHeaders().Front().Value.(*header.Via)
-	}
+	topVia := this.GetTopmostVia()
 	// Have specified a branch Identifier so we can use it to identify
 	// the transaction. BranchId is not case sensitive.
 	// Branch Id prefix is not case sensitive.
 	if topVia != nil && topVia.GetBranch() != "" &&
-		strings.Contains(strings.ToUpper(topVia.GetBranch()),
+		strings.HasPrefix(strings.ToUpper(topVia.GetBranch()),
 			strings.ToUpper(header.SIPConstants_BRANCH_MAGIC_COOKIE)) {
 		// Bis 09 compatible branch assignment algorithm.
 		// implies that the branch id can be used as a transaction
@@ -793,32 +781,32 @@ func (this *SIPMessage) GetTransactionId() string {
 		// Old style client so construct the transaction identifier
 		// from various fields of the request.
 		var retval bytes.Buffer
-		from := this.GetFrom().(*header.From)
-		to := this.GetTo().(*header.To)
-		hpFrom := from.GetUserAtHostPort()
-		retval.WriteString(hpFrom + ":")
-		if from.HasTag() {
-			retval.WriteString(from.GetTag() + ":")
+		if from := this.fromHeader; from != nil {
+			hpFrom := from.GetUserAtHostPort()
+			retval.WriteString(hpFrom + ":")
+			if from.HasTag() {
+				retval.WriteString(from.GetTag() + ":")
+			}
+		}
+		if to := this.toHeader; to != nil {
+			hpTo := to.GetUserAtHostPort()
+			retval.WriteString(hpTo + ":")
 		}
-		hpTo := to.GetUserAtHostPort()
-		retval.WriteString(hpTo + ":")
-		cid := this.callIdHeader.GetCallId()
+		cid := this.GetCallIdentifier()
 		retval.WriteString(cid + ":")
-		retval.WriteRune(rune(this.cSeqHeader.GetSequenceNumber()))
-		retval.WriteString(":" + this.cSeqHeader.GetMethod())
-		if topVia != nil {
+		if this.cSeqHeader != nil {
+			retval.WriteString(strconv.Itoa(this.cSeqHeader.GetSequenceNumber()))
+			retval.WriteString(":" + this.cSeqHeader.GetMethod())
+		}
+		if topVia != nil && topVia.GetSentBy() != nil {
 			retval.WriteString(":" + topVia.GetSentBy().String())
 			if !topVia.GetSentBy().HasPort() {
 				retval.WriteString(":")
-				retval.WriteRune(5060)
+				retval.WriteString("5060")
 			}
 		}
-		hc := ToHexString([]byte(strings.ToLower(retval.String())))
-		if len(hc) < 32 {
-			return hc
-		} else {
-			return hc[len(hc)-32 : len(hc)]
-		}
+		sum := md5.Sum([]byte(strings.ToLower(retval.String())))
+		return ToHexString(sum[:])
 	}
 	// Convert to lower case -- bug fix as a result of a bug report
 	// from Chris Mills of Nortel Networks.
@@ -844,6 +832,9 @@ func (this *SIPMessage) getHeaders() header.Lister {
 func (this *SIPMessage) GetHeader(headerName string) header.Header {
 	sipHeader := this.nameTable[strings.ToLower(headerName)]
 	if sl, ok := sipHeader.(header.SIPHeaderLister); ok {
+		if sl.Len() == 0 {
+			return nil
+		}
 		return sl.Front().Value.(header.Header)
 	} else {
 		return sipHeader
@@ -855,13 +846,17 @@ func (this *SIPMessage) GetHeader(headerName string) header.Header {
  *@return contentType header
  */
 func (this *SIPMessage) GetContentTypeHeader() header.ContentTypeHeader {
-	return this.GetHeader(core.SIPHeaderNames_CONTENT_TYPE).(header.ContentTypeHeader)
+	retval, _ := this.GetHeader(core.SIPHeaderNames_CONTENT_TYPE).(header.ContentTypeHeader)
+	return retval
 }
 
 /** Get the from header.
  *@return -- the from header.
  */
 func (this *SIPMessage) GetFrom() header.FromHeader {
+	if this.fromHeader == nil {
+		return nil
+	}
 	return this.fromHeader
 }
 
@@ -870,7 +865,8 @@ func (this *SIPMessage) GetFrom() header.FromHeader {
  * @return List containing ErrorInfo headers.
  */
 func (this *SIPMessage) GetErrorInfoHeaders() *header.ErrorInfoList {
-	return this.GetSIPHeaderList(core.SIPHeaderNames_ERROR_INFO).(*header.ErrorInfoList)
+	retval, _ := this.GetSIPHeaderList(core.SIPHeaderNames_ERROR_INFO).(*header.ErrorInfoList)
+	return retval
 }
 
 /**
@@ -878,7 +874,8 @@ func (this *SIPMessage) GetErrorInfoHeaders() *header.ErrorInfoList {
  * @return List containing Contact headers.
  */
 func (this *SIPMessage) GetContactHeaders() *header.ContactList {
-	return this.GetSIPHeaderList(core.SIPHeaderNames_CONTACT).(*header.ContactList)
+	retval, _ := this.GetSIPHeaderList(core.SIPHeaderNames_CONTACT).(*header.ContactList)
+	return retval
 }
 
 /**
@@ -886,7 +883,8 @@ func (this *SIPMessage) GetContactHeaders() *header.ContactList {
  * @return List containing Via headers.
  */
 func (this *SIPMessage) GetViaHeaders() *header.ViaList {
-	return this.GetSIPHeaderList(core.SIPHeaderNames_VIA).(*header.ViaList)
+	retval, _ := this.GetSIPHeaderList(core.SIPHeaderNames_VIA).(*header.ViaList)
+	return retval
 }
 
 /** Get an iterator to the list of vial headers.
@@ -921,7 +919,7 @@ func (this *SIPMessage) SetHeaderFromSIPHeaderList(sipHeaderList header.SIPHeade
  *@return the top most via header if one exists or nil if none exists.
  */
 func (this *SIPMessage) GetTopmostVia() *header.Via {
-	if this.GetViaHeaders() == nil {
+	if this.GetViaHeaders() == nil || this.GetViaHeaders().Len() == 0 {
 		return nil
 	} else {
 		return this.GetViaHeaders().Front().Value.(*header.Via)
@@ -933,6 +931,9 @@ func (this *SIPMessage) GetTopmostVia() *header.Via {
  * @return CSeq header
  */
 func (this *SIPMessage) GetCSeq() header.CSeqHeader {
+	if this.cSeqHeader == nil {
+		return nil
+	}
 	return this.cSeqHeader
 }
 
@@ -940,6 +941,9 @@ func (this *SIPMessage) GetCSeq() header.CSeqHeader {
  * @return the sequence number.
  */
 func (this *SIPMessage) GetCSeqNumber() int {
+	if this.cSeqHeader == nil {
+		return -1
+	}
 	return this.cSeqHeader.GetSequenceNumber()
 }
 
@@ -948,7 +952,8 @@ func (this *SIPMessage) GetCSeqNumber() int {
  * @return Authorization header.
  */
 func (this *SIPMessage) GetAuthorization() *header.Authorization {
-	return this.GetHeader(core.SIPHeaderNames_AUTHORIZATION).(*header.Authorization)
+	retval, _ := this.GetHeader(core.SIPHeaderNames_AUTHORIZATION).(*header.Authorization)
+	return retval
 }
 
 /**
@@ -956,6 +961,9 @@ func (this *SIPMessage) GetAuthorization() *header.Authorization {
  * @return Max-Forwards header
  */
 func (this *SIPMessage) GetMaxForwards() header.MaxForwardsHeader {
+	if this.maxForwardsHeader == nil {
+		return nil
+	}
 	return this.maxForwardsHeader
 }
 
@@ -971,7 +979,8 @@ func (this *SIPMessage) SetMaxForwards(maxForwards header.MaxForwardsHeader) {
  * @return Min-Expires header
  */
 func (this *SIPMessage) GetMinExpires() *header.MinExpires {
-	return this.GetHeader(core.SIPHeaderNames_MIN_EXPIRES).(*header.MinExpires)
+	retval, _ := this.GetHeader(core.SIPHeaderNames_MIN_EXPIRES).(*header.MinExpires)
+	return retval
 }
 
 /** Set the min expires header.
@@ -987,7 +996,8 @@ func (this *SIPMessage) SetMinExpiresHeader(minExpires header.MinExpiresHeader)
  * @return Orgnaization header.
  */
 func (this *SIPMessage) GetOrganizationHeader() *header.Organization {
-	return this.GetHeader(core.SIPHeaderNames_ORGANIZATION).(*header.Organization)
+	retval, _ := this.GetHeader(core.SIPHeaderNames_ORGANIZATION).(*header.Organization)
+	return retval
 }
 
 /**
@@ -995,7 +1005,8 @@ func (this *SIPMessage) GetOrganizationHeader() *header.Organization {
  * @return Priority header
  */
 func (this *SIPMessage) GetPriorityHeader() *header.Priority {
-	return this.GetHeader(core.SIPHeaderNames_PRIORITY).(*header.Priority)
+	retval, _ := this.GetHeader(core.SIPHeaderNames_PRIORITY).(*header.Priority)
+	return retval
 }
 
 /**
@@ -1003,7 +1014,8 @@ func (this *SIPMessage) GetPriorityHeader() *header.Priority {
  * @return List containing Proxy-Authorization headers.
  */
 func (this *SIPMessage) GetProxyAuthorizationHeader() *header.ProxyAuthorization {
-	return this.GetHeader(core.SIPHeaderNames_PROXY_AUTHORIZATION).(*header.ProxyAuthorization)
+	retval, _ := this.GetHeader(core.SIPHeaderNames_PROXY_AUTHORIZATION).(*header.ProxyAuthorization)
+	return retval
 }
 
 /**
@@ -1011,7 +1023,8 @@ func (this *SIPMessage) GetProxyAuthorizationHeader() *header.ProxyAuthorization
  * @return List containing Route headers
  */
 func (this *SIPMessage) GetRouteHeaders() *header.RouteList {
-	return this.GetSIPHeaderList(core.SIPHeaderNames_ROUTE).(*header.RouteList)
+	retval, _ := this.GetSIPHeaderList(core.SIPHeaderNames_ROUTE).(*header.RouteList)
+	return retval
 }
 
 /** Get the CallID header (nil if one does not exist)
@@ -1019,6 +1032,9 @@ func (this *SIPMessage) GetRouteHeaders() *header.RouteList {
  * @return Call-ID header .
  */
 func (this *SIPMessage) GetCallId() header.CallIdHeader {
+	if this.callIdHeader == nil {
+		return nil
+	}
 	return this.callIdHeader
 }
 
@@ -1036,8 +1052,10 @@ func (this *SIPMessage) SetCallId(callId header.CallIdHeader) {
  */
 func (this *SIPMessage) SetCallIdFromString(callId string) { //throws java.text.ParseException {
 	if this.callIdHeader == nil {
-		c, _ := header.NewCallID(callId)
-		this.SetHeader(c)
+		if c, err := header.NewCallID(callId); err == nil {
+			this.SetHeader(c)
+		}
+		return
 	}
 	this.callIdHeader.SetCallId(callId)
 }
@@ -1051,6 +1069,9 @@ func (this *SIPMessage) SetCallIdFromString(callId string) { //throws java.text.
  *
  */
 func (this *SIPMessage) GetCallIdentifier() string {
+	if this.callIdHeader == nil {
+		return ""
+	}
 	return this.callIdHeader.GetCallId()
 }
 
@@ -1060,7 +1081,8 @@ func (this *SIPMessage) GetCallIdentifier() string {
  * @return Record-Route header
  */
 func (this *SIPMessage) GetRecordRouteHeaders() *header.RecordRouteList {
-	return this.GetSIPHeaderList(core.SIPHeaderNames_RECORD_ROUTE).(*header.RecordRouteList)
+	retval, _ := this.GetSIPHeaderList(core.SIPHeaderNames_RECORD_ROUTE).(*header.RecordRouteList)
+	return retval
 }
 
 /**
@@ -1068,6 +1090,9 @@ func (this *SIPMessage) GetRecordRouteHeaders() *header.RecordRouteList {
  * @return To header
  */
 func (this *SIPMessage) GetTo() header.ToHeader {
+	if this.toHeader == nil {
+		return nil
+	}
 	return this.toHeader
 }
 
@@ -1085,6 +1110,9 @@ func (this *SIPMessage) SetFrom(from header.FromHeader) {
  * @return content-length header.
  */
 func (this *SIPMessage) GetContentLength() header.ContentLengthHeader {
+	if this.contentLengthHeader == nil {
+		return nil
+	}
 	return this.contentLengthHeader
 }
 
@@ -1190,7 +1218,7 @@ func (this *SIPMessage) SetMessageContentFromString(t string, subType string, me
 	this.messageContentBytes = nil
 	this.messageContentObject = nil
 	//try {
-	this.contentLengthHeader.SetContentLength(len(messageContent))
+	this.setContentLength(len(messageContent))
 	//} catch (InvalidArgumentException ex) {}
 }
 
@@ -1207,9 +1235,13 @@ func (this *SIPMessage) SetContent(content interface{}, contentTypeHeader header
 	length := -1
 	if s, ok := content.(string); ok {
 		this.messageContent = s
+		this.messageContentBytes = nil
+		this.messageContentObject = nil
 		length = len(s)
 	} else if b, ok := content.([]byte); ok {
+		this.messageContent = ""
 		this.messageContentBytes = b
+		this.messageContentObject = nil
 		length = len(b)
 	} else {
 		panic("Don't support GenericObject")
@@ -1227,7 +1259,7 @@ func (this *SIPMessage) SetContent(content interface{}, contentTypeHeader header
 	// length = content.toString().length();
 
 	if length != -1 {
-		this.contentLengthHeader.SetContentLength(length)
+		this.setContentLength(length)
 	}
 	// } catch (InvalidArgumentException ex) {}
 
@@ -1260,7 +1292,7 @@ func (this *SIPMessage) SetMessageContent3(t string, subType string, messageCont
 	this.SetHeader(ct)
 	this.SetMessageContentFromByte(messageContent)
 	//try {
-	this.contentLengthHeader.SetContentLength(len(messageContent))
+	this.setContentLength(len(messageContent))
 	//} catch (InvalidArgumentException ex) {}
 }
 
@@ -1272,7 +1304,7 @@ func (this *SIPMessage) SetMessageContent3(t string, subType string, messageCont
 func (this *SIPMessage) SetMessageContent(content string) {
 	//int clength = (content == nil? 0: content.length());
 	//try {
-	this.contentLengthHeader.SetContentLength(len(content))
+	this.setContentLength(len(content))
 	// } catch (InvalidArgumentException ex) {}
 	this.messageContent = content
 	this.messageContentBytes = nil
@@ -1285,7 +1317,7 @@ func (this *SIPMessage) SetMessageContent(content string) {
  */
 func (this *SIPMessage) SetMessageContentFromByte(content []byte) {
 	//try {
-	this.contentLengthHeader.SetContentLength(len(content))
+	this.setContentLength(len(content))
 	//} catch (InvalidArgumentException ex) {}
 
 	this.messageContentBytes = content
@@ -1301,7 +1333,7 @@ func (this *SIPMessage) RemoveContent() {
 	this.messageContentBytes = nil
 	this.messageContentObject = nil
 	//try {
-	this.contentLengthHeader.SetContentLength(0)
+	this.setContentLength(0)
 	//} catch (InvalidArgumentException ex) {}
 }
 
@@ -1330,7 +1362,8 @@ func (this *SIPMessage) GetHeaders(headerName string) header.Lister {
 }
 
 func (this *SIPMessage) GetSIPHeaderList(headerName string) header.SIPHeaderLister {
-	return this.nameTable[strings.ToLower(headerName)].(header.SIPHeaderLister)
+	retval, _ := this.nameTable[strings.ToLower(headerName)].(header.SIPHeaderLister)
+	return retval
 }
 
 func (this *SIPMessage) GetHeaderList(headerName string) header.Lister {
@@ -1439,7 +1472,7 @@ func (this *SIPMessage) AddHeader(sipHeader header.Header) {
 	// Content length is never stored. Just computed.
 	sh := sipHeader.(header.Header)
 	//try {
-	if _, ok := sipHeader.(header.ViaHeader); ok {
+	if _, ok := sipHeader.(*header.Via); ok {
 		this.AttachHeader3(sh, false, true)
 	} else {
 		this.AttachHeader3(sh, false, false)
@@ -1493,7 +1526,11 @@ func (this *SIPMessage) GetUnrecognizedHeaders() *list.List {
  * in the same order as are present in the message.
  */
 func (this *SIPMessage) GetHeaderNames() *list.List {
-	return this.headers
+	retval := list.New()
+	for li := this.headers.Front(); li != nil; li = li.Next() {
+		retval.PushBack(li.Value.(header.Header).GetName())
+	}
+	return retval
 	// ListIterator li = this.headers.listIterator();
 	// LinkedList retval  = new LinkedList();
 	// while (li.hasNext()) {
@@ -1539,7 +1576,8 @@ func (this *SIPMessage) GetHeaderNames() *list.List {
  * @return the contentDisposition header
  */
 func (this *SIPMessage) GetContentDisposition() header.ContentDispositionHeader {
-	return this.GetHeader(core.SIPHeaderNames_CONTENT_DISPOSITION).(header.ContentDispositionHeader)
+	retval, _ := this.GetHeader(core.SIPHeaderNames_CONTENT_DISPOSITION).(header.ContentDispositionHeader)
+	return retval
 }
 
 /** Get the content encoding header.
@@ -1547,7 +1585,8 @@ func (this *SIPMessage) GetContentDisposition() header.ContentDispositionHeader
  *@return the contentEncoding header.
  */
 func (this *SIPMessage) GetContentEncoding() header.ContentEncodingHeader {
-	return this.GetHeader(core.SIPHeaderNames_CONTENT_ENCODING).(header.ContentEncodingHeader)
+	retval, _ := this.GetHeader(core.SIPHeaderNames_CONTENT_ENCODING).(header.ContentEncodingHeader)
+	return retval
 }
 
 /** Get the contentLanguage header.
@@ -1555,7 +1594,8 @@ func (this *SIPMessage) GetContentEncoding() header.ContentEncodingHeader {
  *@return the content language header.
  */
 func (this *SIPMessage) GetContentLanguage() header.ContentLanguageHeader {
-	return this.GetHeader(core.SIPHeaderNames_CONTENT_LANGUAGE).(header.ContentLanguageHeader)
+	retval, _ := this.GetHeader(core.SIPHeaderNames_CONTENT_LANGUAGE).(header.ContentLanguageHeader)
+	return retval
 }
 
 /** Get the exipres header.
@@ -1563,7 +1603,8 @@ func (this *SIPMessage) GetContentLanguage() header.ContentLanguageHeader {
  *@return the expires header or nil if one does not exist.
  */
 func (this *SIPMessage) GetExpires() header.ExpiresHeader {
-	return this.GetHeader(core.SIPHeaderNames_EXPIRES).(header.ExpiresHeader)
+	retval, _ := this.GetHeader(core.SIPHeaderNames_EXPIRES).(header.ExpiresHeader)
+	return retval
 }
 
 /** Set the expiresHeader
@@ -1596,7 +1637,7 @@ func (this *SIPMessage) SetContentLanguage(contentLanguageHeader header.ContentL
  */
 func (this *SIPMessage) SetContentLength(contentLength header.ContentLengthHeader) {
 	//try {
-	this.contentLengthHeader.SetContentLength(contentLength.GetContentLength())
+	this.setContentLength(contentLength.GetContentLength())
 	//} catch (InvalidArgumentException ex) {}
 
 }
@@ -1614,3 +1655,69 @@ func (this *SIPMessage) SetCSeq(cseqHeader header.CSeqHeader) {
 //    //public abstract String GetSIPVersion();
 
 //    //public abstract String toString();
+
+// setContentLength updates the Content-Length header, adding it if the
+// message does not have one.
+func (this *SIPMessage) setContentLength(length int) {
+	if this.contentLengthHeader == nil {
+		this.AttachHeader2(header.NewContentLengthFromInt(length), true)
+	} else {
+		this.contentLengthHeader.SetContentLength(length)
+	}
+}
+
+// newHeaderList returns an empty list for the kind of header given, or nil
+// if it is not kept in a list.
+func newHeaderList(h header.Header) header.SIPHeaderLister {
+	switch h.(type) {
+	case *header.AcceptEncoding:
+		return header.NewAcceptEncodingList()
+	case *header.AcceptLanguage:
+		return header.NewAcceptLanguageList()
+	case *header.Accept:
+		return header.NewAcceptList()
+	case *header.AlertInfo:
+		return header.NewAlertInfoList()
+	case *header.AllowEvents:
+		return header.NewAllowEventsList()
+	case *header.Allow:
+		return header.NewAllowList()
+	case *header.CallInfo:
+		return header.NewCallInfoList()
+	case *header.Contact:
+		return header.NewContactList()
+	case *header.ContentEncoding:
+		return header.NewContentEncodingList()
+	case *header.ContentLanguage:
+		return header.NewContentLanguageList()
+	case *header.ErrorInfo:
+		return header.NewErrorInfoList()
+	case *header.Extension:
+		return header.NewExtensionHeaderList(h.GetName())
+	case *header.InReplyTo:
+		return header.NewInReplyToList()
+	case *header.ProxyAuthenticate:
+		return header.NewProxyAuthenticateList()
+	case *header.ProxyRequire:
+		return header.NewProxyRequireList()
+	case *header.Reason:
+		return header.NewReasonList()
+	case *header.RecordRoute:
+		return header.NewRecordRouteList()
+	case *header.Require:
+		return header.NewRequireList()
+	case *header.Route:
+		return header.NewRouteList()
+	case *header.Supported:
+		return header.NewSupportedList()
+	case *header.Unsupported:
+		return header.NewUnsupportedList()
+	case *header.Via:
+		return header.NewViaList()
+	case *header.WWWAuthenticate:
+		return header.NewWWWAuthenticateList()
+	case *header.Warning:
+		return header.NewWarningList()
+	}
+	return nil
+}
-- 
2.43.0


From 9301f43d26e52c6077d3a7e69bc305dafd3921b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:40 +0000
Subject: [PATCH 17/57] fix: message: requests derived from a request leave it
 unchanged

---
 sip/message/SIPRequest.go | 119 +++++++++++++++++++++++++-------------
 1 file changed, 78 insertions(+), 41 deletions(-)

diff --git a/sip/message/SIPRequest.go b/sip/message/SIPRequest.go
index 9cf72f4..255d897 100644
--- a/sip/message/SIPRequest.go
+++ b/sip/message/SIPRequest.go
@@ -159,7 +159,7 @@ func (this *SIPRequest) SetDefaults() {
 		return
 	}
 	if method == REGISTER || method == INVITE {
-		if sipUri, ok := u.(address.SipURI); ok {
+		if sipUri, ok := u.(*address.SipURIImpl); ok {
 			//SipURIImpl sipUri = (SipURIImpl)  u;
 			sipUri.SetUserParam(DEFAULT_USER)
 			// try {
@@ -175,7 +175,7 @@ func (this *SIPRequest) SetDefaults() {
 func (this *SIPRequest) SetRequestLineDefaults() {
 	method := this.requestLine.GetMethod()
 	if method == "" {
-		cseq := this.GetCSeq().(*header.CSeq)
+		cseq := this.cSeqHeader
 		if cseq != nil {
 			method = cseq.GetMethod()
 			this.requestLine.SetMethod(method)
@@ -340,11 +340,16 @@ func (this *SIPRequest) GetMessageAsEncodedStrings() *list.List {
 // *	and Set to false if this is the UAC
 // */
 func (this *SIPRequest) GetDialogId(isServer bool) string {
-	cid := this.GetCallId()
-	from := this.GetFrom().(*header.From)
-	to := this.GetTo().(*header.To)
+	from := this.fromHeader
+	if from == nil {
+		from = header.NewFrom()
+	}
+	to := this.toHeader
+	if to == nil {
+		to = header.NewTo()
+	}
 	var retval bytes.Buffer
-	retval.WriteString(cid.GetCallId())
+	retval.WriteString(this.GetCallIdentifier())
 	if !isServer {
 		retval.WriteString(core.SIPSeparatorNames_COLON)
 		retval.WriteString(from.GetUserAtHostPort())
@@ -379,11 +384,16 @@ func (this *SIPRequest) GetDialogId(isServer bool) string {
 // /** Get a dialog id given the remote tag.
 // */
 func (this *SIPRequest) GetDialogId2(isServer bool, toTag string) string {
-	cid := this.GetCallId()
-	from := this.GetFrom().(*header.From)
-	to := this.GetTo().(*header.To)
+	from := this.fromHeader
+	if from == nil {
+		from = header.NewFrom()
+	}
+	to := this.toHeader
+	if to == nil {
+		to = header.NewTo()
+	}
 	var retval bytes.Buffer
-	retval.WriteString(cid.GetCallId())
+	retval.WriteString(this.GetCallIdentifier())
 	if !isServer {
 		retval.WriteString(core.SIPSeparatorNames_COLON)
 		retval.WriteString(from.GetUserAtHostPort())
@@ -425,6 +435,7 @@ func (this *SIPRequest) GetDialogId2(isServer bool, toTag string) string {
 func (this *SIPRequest) EncodeAsBytes() []byte {
 	var rlbytes []byte
 	if this.requestLine != nil {
+		this.SetRequestLineDefaults()
 		// try {
 		rlbytes = []byte(this.requestLine.String()) //.GetBytes("UTF-8");
 		//   } catch (UnsupportedEncodingException ex) {
@@ -516,16 +527,21 @@ func (this *SIPRequest) CreateResponse2(statusCode int, reasonPhrase string) *SI
 			newResponse.AttachHeader2(nextHeader, false)
 		}
 		if _, ok := nextHeader.(*header.To); ok {
-			newResponse.AttachHeader2(nextHeader, false)
+			// The tag is usually set in the response only.
+			newResponse.AttachHeader2(nextHeader.Clone().(*header.To), false)
 		}
-		if _, ok := nextHeader.(*header.ViaList); ok {
-			newResponse.AttachHeader2(nextHeader, false)
+		if list, ok := nextHeader.(*header.ViaList); ok {
+			newList := header.NewViaList()
+			newList.Concatenate(list, false)
+			newResponse.AttachHeader2(newList, false)
 		}
 		if _, ok := nextHeader.(*header.CallID); ok {
 			newResponse.AttachHeader2(nextHeader, false)
 		}
-		if _, ok := nextHeader.(*header.RecordRouteList); ok {
-			newResponse.AttachHeader2(nextHeader, false)
+		if list, ok := nextHeader.(*header.RecordRouteList); ok {
+			newList := header.NewRecordRouteList()
+			newList.Concatenate(list, false)
+			newResponse.AttachHeader2(newList, false)
 		}
 		if _, ok := nextHeader.(*header.CSeq); ok {
 			newResponse.AttachHeader2(nextHeader, false)
@@ -573,7 +589,9 @@ func (this *SIPRequest) CreateCancelRequest() *SIPRequest {
 	//SIPHeader	nextHeader;
 
 	newRequest := NewSIPRequest()
-	newRequest.SetRequestLine(this.requestLine)
+	if this.requestLine != nil {
+		newRequest.SetRequestLine(this.requestLine.Clone().(*header.RequestLine))
+	}
 	newRequest.SetMethod(CANCEL)
 
 	for headerIterator := this.getHeaders().Front(); headerIterator != nil; headerIterator = headerIterator.Next() {
@@ -598,6 +616,7 @@ func (this *SIPRequest) CreateCancelRequest() *SIPRequest {
 		} else if cseq, ok := nextHeader.(*header.CSeq); ok { // CSeq method for a cancel request must be cancel.
 			//CSeq cseq = (CSeq) nextHeader.clone();
 			//try{
+			cseq = cseq.Clone().(*header.CSeq)
 			cseq.SetMethod(CANCEL)
 			//}
 			//catch(ParseException e){}
@@ -629,7 +648,9 @@ func (this *SIPRequest) CreateAckRequest(responseToHeader *header.To) *SIPReques
 	// SIPHeader	nextHeader;
 
 	newRequest := NewSIPRequest()
-	newRequest.SetRequestLine(this.requestLine)
+	if this.requestLine != nil {
+		newRequest.SetRequestLine(this.requestLine.Clone().(*header.RequestLine))
+	}
 	newRequest.SetMethod(ACK)
 	for headerIterator := this.getHeaders().Front(); headerIterator != nil; headerIterator = headerIterator.Next() {
 		nextHeader := headerIterator.Value.(header.Header)
@@ -642,14 +663,9 @@ func (this *SIPRequest) CreateAckRequest(responseToHeader *header.To) *SIPReques
 			// Remove proxy auth header.
 			// Assigned by the Dialog if necessary.
 			continue
-		} else if cl, ok := nextHeader.(*header.ContentLength); ok {
+		} else if _, ok := nextHeader.(*header.ContentLength); ok {
 			// Adding content is responsibility of user.
-			//nextHeader = nextHeader.(*header.ContentLength)
-			//try{
-			cl.SetContentLength(0)
-			nextHeader = cl
-			//}
-			//catch(InvalidArgumentException e){}
+			continue
 		} else if _, ok := nextHeader.(*header.ContentType); ok {
 			// Content type header is removed since
 			// content length is 0. Bug fix from
@@ -663,6 +679,7 @@ func (this *SIPRequest) CreateAckRequest(responseToHeader *header.To) *SIPReques
 			// MUST be equal to "ACK".
 			//nextHeader = nextHeader.(*header.CSeq)
 			//try{
+			cseq = cseq.Clone().(*header.CSeq)
 			cseq.SetMethod(ACK)
 			nextHeader = cseq
 			//catch(ParseException e){}
@@ -680,6 +697,9 @@ func (this *SIPRequest) CreateAckRequest(responseToHeader *header.To) *SIPReques
 			// field of the original
 			// request.
 
+			if vl.Len() == 0 {
+				continue
+			}
 			nextHeader = vl.Front().Value.(header.Header)
 		} else {
 			//nextHeader = (SIPHeader) nextHeader.clone();
@@ -736,20 +756,24 @@ func (this *SIPRequest) CreateAckRequest(responseToHeader *header.To) *SIPReques
 // */
 func (this *SIPRequest) CreateSIPRequest(requestLine *header.RequestLine, switchHeaders bool) *SIPRequest {
 	newRequest := NewSIPRequest()
-	newRequest.requestLine = this.requestLine
+	newRequest.requestLine = requestLine
 	for headerIterator := this.getHeaders().Front(); headerIterator != nil; headerIterator = headerIterator.Next() {
 		nextHeader := headerIterator.Value.(header.Header)
 		// For BYE and cancel Set the CSeq header to the
 		// appropriate method.
 		if newCseq, ok := nextHeader.(*header.CSeq); ok {
 			// CSeq newCseq = (CSeq) nextHeader.clone();
+			newCseq = newCseq.Clone().(*header.CSeq)
 			nextHeader = newCseq
 			//try{
-			newCseq.SetMethod(this.requestLine.GetMethod())
+			newCseq.SetMethod(requestLine.GetMethod())
 			//}
 			//catch(ParseException e){}
 		} else if vl, ok := nextHeader.(*header.ViaList); ok {
-			via := vl.Front().Value.(*header.Via)
+			if vl.Len() == 0 {
+				continue
+			}
+			via := vl.Front().Value.(*header.Via).Clone().(*header.Via)
 			via.RemoveParameter("branch")
 			nextHeader = via
 			// Cancel and ACK preserve the branch ID.
@@ -760,7 +784,7 @@ func (this *SIPRequest) CreateSIPRequest(requestLine *header.RequestLine, switch
 				from.RemoveTag()
 				nextHeader = from
 			} else {
-				//to2 := to.Clone().(*To)
+				to = to.Clone().(*header.To)
 				to.RemoveTag()
 				nextHeader = to
 			}
@@ -771,18 +795,13 @@ func (this *SIPRequest) CreateSIPRequest(requestLine *header.RequestLine, switch
 				to.RemoveTag()
 				nextHeader = to
 			} else {
-				//from2 := from.Clone().(*From)
+				from = from.Clone().(*header.From)
 				from.RemoveTag()
 				nextHeader = from
 			}
-		} else if cl, ok := nextHeader.(*header.ContentLength); ok {
-			//ContentLength cl  =
-			//	(ContentLength) nextHeader.clone();
-			//try{
-			cl.SetContentLength(0)
-			//}
-			//catch(InvalidArgumentException e){}
-			nextHeader = cl
+		} else if _, ok := nextHeader.(*header.ContentLength); ok {
+			// The new request has no content.
+			continue
 		} else {
 			_, ok1 := nextHeader.(*header.CallID)
 			_, ok2 := nextHeader.(*header.MaxForwards)
@@ -814,7 +833,10 @@ func (this *SIPRequest) CreateSIPRequest(requestLine *header.RequestLine, switch
  *@return a new default BYE request.
  */
 func (this *SIPRequest) CreateBYERequest(switchHeaders bool) *SIPRequest {
-	requestLine := this.requestLine //.clone();
+	requestLine := header.NewRequestLine()
+	if this.requestLine != nil {
+		requestLine = this.requestLine.Clone().(*header.RequestLine)
+	}
 	requestLine.SetMethod("BYE")
 	return this.CreateSIPRequest(requestLine, switchHeaders)
 }
@@ -826,7 +848,10 @@ func (this *SIPRequest) CreateBYERequest(switchHeaders bool) *SIPRequest {
 *
  */
 func (this *SIPRequest) CreateACKRequest() *SIPRequest {
-	requestLine := this.requestLine //.clone();
+	requestLine := header.NewRequestLine()
+	if this.requestLine != nil {
+		requestLine = this.requestLine.Clone().(*header.RequestLine)
+	}
 	requestLine.SetMethod(ACK)
 	return this.CreateSIPRequest(requestLine, false)
 }
@@ -838,7 +863,10 @@ func (this *SIPRequest) CreateACKRequest() *SIPRequest {
 * header.
  */
 func (this *SIPRequest) GetViaHost() string {
-	via := this.GetViaHeaders().Front().Value.(*header.Via)
+	via := this.GetTopmostVia()
+	if via == nil {
+		return ""
+	}
 	return via.GetHost()
 }
 
@@ -849,7 +877,10 @@ func (this *SIPRequest) GetViaHost() string {
 *  no port indicated).
  */
 func (this *SIPRequest) GetViaPort() int {
-	via := this.GetViaHeaders().Front().Value.(*header.Via)
+	via := this.GetTopmostVia()
+	if via == nil {
+		return 5060
+	}
 	if via.HasPort() {
 		return via.GetPort()
 	} else {
@@ -879,6 +910,9 @@ func (this *SIPRequest) SetSIPVersion(sipVersion string) {
 	//throws ParseException {
 	//if (sipVersion == nil || !sipVersion.equals("SIP/2.0"))
 	//	throw new ParseException ("sipVersion" , 0);
+	if this.requestLine == nil {
+		this.requestLine = header.NewRequestLine()
+	}
 	this.requestLine.SetSIPVersion(sipVersion)
 }
 
@@ -887,6 +921,9 @@ func (this *SIPRequest) SetSIPVersion(sipVersion string) {
 *@return the SIP version from the request line.
  */
 func (this *SIPRequest) GetSIPVersion() string {
+	if this.requestLine == nil {
+		return ""
+	}
 	return this.requestLine.GetSipVersion()
 }
 
-- 
2.43.0


From 751f24267349d5219d7765e53c4e47deac07d825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:40 +0000
Subject: [PATCH 18/57] fix: message: responses encode their own status line
 and derive dialog identifiers

---
 sip/message/SIPResponse.go | 46 ++++++++++++++++++++++++++++----------
 1 file changed, 34 insertions(+), 12 deletions(-)

diff --git a/sip/message/SIPResponse.go b/sip/message/SIPResponse.go
index 42caaaa..fd5f41a 100644
--- a/sip/message/SIPResponse.go
+++ b/sip/message/SIPResponse.go
@@ -220,6 +220,9 @@ func (this *SIPResponse) GetStatusLine() *header.StatusLine {
 //     *@return the status code of the status line.
 //     */
 func (this *SIPResponse) GetStatusCode() int {
+	if this.statusLine == nil {
+		return 0
+	}
 	return this.statusLine.GetStatusCode()
 }
 
@@ -259,7 +262,7 @@ func (this *SIPResponse) IsFinalResponseFromInt(rc int) bool {
 //     *@return true if this is a final response.
 //     */
 func (this *SIPResponse) IsFinalResponse() bool {
-	return this.IsFinalResponseFromInt(this.statusLine.GetStatusCode())
+	return this.IsFinalResponseFromInt(this.GetStatusCode())
 }
 
 //    /**
@@ -323,7 +326,7 @@ func (this *SIPResponse) String() string {
 	} else {
 		retval = this.SIPMessage.String()
 	}
-	return retval + core.SIPSeparatorNames_NEWLINE
+	return retval
 }
 
 // func (this *SIPResponse) String() string {
@@ -477,11 +480,16 @@ func (this *SIPResponse) EncodeAsBytes() []byte {
 //     * and Set to false if this is the UAC
 //     */
 func (this *SIPResponse) GetDialogId(isServer bool) string {
-	cid := this.GetCallId()
-	from := this.GetFrom().(*header.From)
-	to := this.GetTo().(*header.To)
+	from := this.fromHeader
+	if from == nil {
+		from = header.NewFrom()
+	}
+	to := this.toHeader
+	if to == nil {
+		to = header.NewTo()
+	}
 	var retval bytes.Buffer
-	retval.WriteString(cid.GetCallId())
+	retval.WriteString(this.GetCallIdentifier())
 	if !isServer {
 		retval.WriteString(core.SIPSeparatorNames_COLON)
 		retval.WriteString(from.GetUserAtHostPort())
@@ -513,11 +521,16 @@ func (this *SIPResponse) GetDialogId(isServer bool) string {
 }
 
 func (this *SIPResponse) GetDialogId2(isServer bool, toTag string) string {
-	cid := this.GetCallId()
-	from := this.GetFrom().(*header.From)
-	to := this.GetTo().(*header.To)
+	from := this.fromHeader
+	if from == nil {
+		from = header.NewFrom()
+	}
+	to := this.toHeader
+	if to == nil {
+		to = header.NewTo()
+	}
 	var retval bytes.Buffer
-	retval.WriteString(cid.GetCallId())
+	retval.WriteString(this.GetCallIdentifier())
 	if !isServer {
 		retval.WriteString(core.SIPSeparatorNames_COLON)
 		retval.WriteString(from.GetUserAtHostPort())
@@ -561,12 +574,12 @@ func (this *SIPResponse) GetDialogId2(isServer bool, toTag string) string {
 //     * request.
 //     */
 
-func (this *SIPResponse) CreateRequest(requestURI address.SipURI, via *header.Via, cseq *header.CSeq) *SIPRequest {
+func (this *SIPResponse) CreateRequest(requestURI address.URI, via *header.Via, cseq *header.CSeq) *SIPRequest {
 	newRequest := NewSIPRequest()
 	method := cseq.GetMethod()
 	newRequest.SetMethod(method)
 	newRequest.SetRequestURI(requestURI)
-	if (method == "ACK" || method == "CANCEL") && this.GetTopmostVia().GetBranch() != "" {
+	if (method == "ACK" || method == "CANCEL") && this.GetTopmostVia() != nil && this.GetTopmostVia().GetBranch() != "" {
 		// Use the branch id from the OK.
 		//try {
 		via.SetBranch(this.GetTopmostVia().GetBranch())
@@ -590,6 +603,9 @@ func (this *SIPResponse) CreateRequest(requestURI address.SipURI, via *header.Vi
 		if _, ok := nextHeader.(*header.ContentType); ok {
 			continue
 		}
+		if _, ok := nextHeader.(*header.ContentLength); ok {
+			continue
+		}
 		if _, ok := nextHeader.(*header.RecordRouteList); ok {
 			continue
 		}
@@ -622,9 +638,15 @@ func (this *SIPResponse) GetFirstLine() string {
 }
 
 func (this *SIPResponse) SetSIPVersion(sipVersion string) {
+	if this.statusLine == nil {
+		this.statusLine = header.NewStatusLine()
+	}
 	this.statusLine.SetSipVersion(sipVersion)
 }
 
 func (this *SIPResponse) GetSIPVersion() string {
+	if this.statusLine == nil {
+		return ""
+	}
 	return this.statusLine.GetSipVersion()
 }
-- 
2.43.0


From 222363a11297e5f61cc579f7ec4ed2820b87302e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:40 +0000
Subject: [PATCH 19/57] fix: parser: message framing, folding and error
 reporting

---
 sip/parser/StringMsgParser.go | 169 ++++++++++------------------------
 1 file changed, 49 insertions(+), 120 deletions(-)

diff --git a/sip/parser/StringMsgParser.go b/sip/parser/StringMsgParser.go
index 6e02cad..5f08a67 100644
--- a/sip/parser/StringMsgParser.go
+++ b/sip/parser/StringMsgParser.go
@@ -67,24 +67,7 @@ func NewStringMsgParser() *StringMsgParser {
 /** Get the message body.
  */
 func (this *StringMsgParser) GetMessageBody() string {
-	if this.contentLength == 0 {
-		return ""
-	} else {
-		endIndex := this.bufferPointer + this.contentLength
-		var body string
-		// guard against bad specifications.
-		if endIndex > len(this.currentMessage) {
-			endIndex = len(this.currentMessage)
-			body = this.currentMessage[this.bufferPointer:endIndex]
-			this.bufferPointer = endIndex
-		} else {
-			body = this.currentMessage[this.bufferPointer:endIndex]
-			this.bufferPointer = endIndex + 1
-		}
-		this.contentLength = 0
-		return body
-	}
-
+	return string(this.GetBodyAsBytes())
 }
 
 /** Get the message body as a byte array.
@@ -113,9 +96,7 @@ func (this *StringMsgParser) GetBodyAsBytes() []byte {
  * you encounter an error.
  */
 func (this *StringMsgParser) ReadToEnd() string {
-	body := this.currentMessage[this.bufferPointer:]
-	this.bufferPointer += len(body)
-	return body
+	return string(this.ReadBytesToEnd())
 }
 
 /** Return tbe bytes to the end of the message.
@@ -164,6 +145,7 @@ func (this *StringMsgParser) IsBodyString() bool {
  */
 func (this *StringMsgParser) ParseSIPMessageFromByte(msgBuffer []byte) (message.Message, error) {
 	this.bufferPointer = 0
+	this.contentLength = 0
 	this.bodyIsString = false
 
 	this.currentMessageBytes = msgBuffer
@@ -181,109 +163,43 @@ func (this *StringMsgParser) ParseSIPMessageFromByte(msgBuffer []byte) (message.
 		return nil, nil
 	}
 
-	// Find the end of the SIP message.
-	var f int
-	for f = s; f < len(msgBuffer)-4; f++ {
-		if msgBuffer[f] == '\r' &&
-			msgBuffer[f+1] == '\n' &&
-			msgBuffer[f+2] == '\r' &&
-			msgBuffer[f+3] == '\n' {
-			break
-		}
-	}
-	if f < len(msgBuffer) {
-		f += 4
-	} else {
-		// Could not find CRLFCRLF end of message so look for LFLF
-		for f = s; f < len(msgBuffer)-2; f++ {
-			if msgBuffer[f] == '\n' &&
-				msgBuffer[f+1] == '\n' {
-				break
-			}
-		}
-		if f < len(msgBuffer) {
-			f += 2
-		} else {
+	// Collect the header lines up to the first empty line, which ends
+	// them. Get rid of CR to make it uniform for the parser and append
+	// continuations (a space or a tab at the start of the line) to the
+	// previous line.
+	var lines []string
+	terminated := false
+	for f := s; !terminated; {
+		eol := bytes.IndexByte(msgBuffer[f:], '\n')
+		if eol == -1 {
 			return nil, errors.New("ParseException: Message not terminated")
 		}
-	}
-
-	// Encode the body as a UTF-8 string.
-	var messageString string
-	messageString = string(msgBuffer[s:f]) //, "UTF-8");
-
-	this.bufferPointer = f
-	message := []byte(messageString)
-	length := len(message)
-	// Get rid of CR to make it uniform for the parser.
-	for k := 0; k < length; k++ {
-		if message[k] == '\r' {
-			copy(message[k:length-1], message[k+1:length])
-			length--
-		}
-	}
-
-	// The following can be written more efficiently in a single pass
-	// but it is somewhat tricky.
-	tokenizer := core.NewStringTokenizer(string(message[:length]))
-	var cooked_message bytes.Buffer
-
-	for tokenizer.HasMoreChars() {
-		nexttok := tokenizer.NextToken()
-		// Ignore blank lines with leading spaces or tabs.
-		if strings.TrimSpace(nexttok) == "" {
-			cooked_message.WriteString("\n")
-		} else {
-			cooked_message.WriteString(nexttok)
-		}
-	}
-
-	message1 := cooked_message.String()
-	length = strings.Index(message1, "\n\n") + 2
-
-	// Handle continuations - look for a space or a tab at the start
-	// of the line and append it to the previous line.
-	var cooked_message1 bytes.Buffer
-	for k := 0; k < length-1; {
-		if message1[k] == '\n' {
-			if message1[k+1] == '\t' || message1[k+1] == ' ' {
-				k++
-				k++
-				if k == length {
-					break
-				} else {
-					continue
-				}
-			} else {
-				cooked_message1.WriteByte(message1[k])
-			}
-
-			if message1[k+1] == '\n' {
-				cooked_message1.WriteByte('\n')
-			}
+		line := strings.Replace(string(msgBuffer[f:f+eol]), "\r", "", -1)
+		f += eol + 1
+		if line == "" {
+			this.bufferPointer = f
+			terminated = true
+		} else if len(lines) > 0 && (line[0] == ' ' || line[0] == '\t') {
+			lines[len(lines)-1] += line[1:]
 		} else {
-			cooked_message1.WriteByte(message1[k])
+			lines = append(lines, line)
 		}
-		k++
 	}
-	cooked_message1.WriteString("\n\n")
-	cooked_message1.WriteString(message1[length:])
 
 	// Separate the string out into substrings for
 	// error reporting.
-	this.currentMessage = cooked_message1.String()
+	this.currentMessage = strings.Join(lines, "\n") + "\n\n\n"
 
 	sipmsg, err := this.ParseMessage(this.currentMessage)
 	if err != nil {
 		return nil, err
 	}
 
-	if this.readBody && sipmsg.GetContentLength() != nil && sipmsg.GetContentLength().GetContentLength() != 0 {
+	if this.readBody && sipmsg.GetContentLength().GetContentLength() != 0 {
 		this.contentLength = sipmsg.GetContentLength().GetContentLength()
 
-		endIndex := this.bufferPointer + this.contentLength
 		// guard against bad specifications.
-		if endIndex > len(this.currentMessageBytes) {
+		if this.contentLength > len(this.currentMessageBytes)-this.bufferPointer {
 			return nil, errors.New("Content Length Larger Than Message")
 		}
 
@@ -359,7 +275,9 @@ func (this *StringMsgParser) ParseMessage(currentMessage string) (message.Messag
 				return nil, err
 			}
 		}
-		sipmsg.(*message.SIPRequest).SetRequestLine(rl)
+		if rl != nil {
+			sipmsg.(*message.SIPRequest).SetRequestLine(rl)
+		}
 	} else {
 		sipmsg = message.NewSIPResponse()
 		var sl *header.StatusLine
@@ -372,11 +290,15 @@ func (this *StringMsgParser) ParseMessage(currentMessage string) (message.Messag
 				return nil, err
 			}
 		}
-		sipmsg.(*message.SIPResponse).SetStatusLine(sl)
+		if sl != nil {
+			sipmsg.(*message.SIPResponse).SetStatusLine(sl)
+		}
 	}
 
 	for i := 1; i < len(this.messageHeaders); i++ {
 		hdrstring := this.messageHeaders[i]
+		this.currentLine = i
+		this.currentHeader = hdrstring
 		if hdrstring == "" || strings.TrimSpace(hdrstring) == "" {
 			continue
 		}
@@ -387,6 +309,7 @@ func (this *StringMsgParser) ParseMessage(currentMessage string) (message.Messag
 				if err = this.parseExceptionListener.HandleException(err, sipmsg, hdrstring, currentMessage); err != nil {
 					return nil, err
 				}
+				continue
 			} else {
 				return nil, err
 			}
@@ -398,6 +321,7 @@ func (this *StringMsgParser) ParseMessage(currentMessage string) (message.Messag
 				if err = this.parseExceptionListener.HandleException(err, sipmsg, hdrstring, currentMessage); err != nil {
 					return nil, err
 				}
+				continue
 			} else {
 				return nil, err
 			}
@@ -405,7 +329,7 @@ func (this *StringMsgParser) ParseMessage(currentMessage string) (message.Messag
 
 		if _, ok := sipmsg.(*message.SIPRequest); ok {
 			if cseq, present := sipHeader.(*header.CSeq); present {
-				if cseq.GetMethod() != sipmsg.(*message.SIPRequest).GetMethod() {
+				if !strings.EqualFold(cseq.GetMethod(), sipmsg.(*message.SIPRequest).GetMethod()) {
 					return nil, errors.New("Start Line and CSeq Method Mismatch")
 				}
 			}
@@ -470,8 +394,15 @@ func (this *StringMsgParser) ParSetelephoneNumber(telephone_number string) (*add
  * @exception ParseException  if there was an error parsing the message.
  */
 func (this *StringMsgParser) ParseSIPUrl(url string) (*address.SipURIImpl, error) {
-	sipuri, err := NewURLParser(url).Parse()
-	return sipuri.(*address.SipURIImpl), err
+	uri, err := NewURLParser(url).Parse()
+	if err != nil {
+		return nil, err
+	}
+	sipuri, ok := uri.(*address.SipURIImpl)
+	if !ok {
+		return nil, errors.New("ParseException: not a SIP URI " + url)
+	}
+	return sipuri, nil
 }
 
 /**
@@ -480,9 +411,8 @@ func (this *StringMsgParser) ParseSIPUrl(url string) (*address.SipURIImpl, error
  * @return A parsed URI structure
  * @exception ParseException  if there was an error parsing the message.
  */
-func (this *StringMsgParser) ParseUrl(url string) (*address.URIImpl, error) {
-	guri, err := NewURLParser(url).Parse()
-	return guri.(*address.URIImpl), err
+func (this *StringMsgParser) ParseUrl(url string) (address.URI, error) {
+	return NewURLParser(url).Parse()
 }
 
 /**
@@ -491,7 +421,7 @@ func (this *StringMsgParser) ParseUrl(url string) (*address.URIImpl, error) {
  * @return a SIPHeader structure.
  * @exception ParseException  if there was an error parsing the message.
  */
-func (this *StringMsgParser) ParseSIPHeader(h string) (*header.SIPHeader, error) {
+func (this *StringMsgParser) ParseSIPHeader(h string) (header.Header, error) {
 	var err error
 
 	h += "\n\n"
@@ -500,7 +430,7 @@ func (this *StringMsgParser) ParseSIPHeader(h string) (*header.SIPHeader, error)
 	//counter := 0
 	// eat leading spaces and carriage returns (necessary??)
 	i := 0
-	for h[i] == '\n' || h[i] == '\t' || h[i] == ' ' {
+	for i < len(h) && (h[i] == '\n' || h[i] == '\t' || h[i] == ' ') {
 		i++
 	}
 	for ; i < len(h); i++ {
@@ -508,7 +438,7 @@ func (this *StringMsgParser) ParseSIPHeader(h string) (*header.SIPHeader, error)
 			nmessage += " "
 			i++
 		} else {
-			nmessage += string(h[i])
+			nmessage += h[i : i+1]
 		}
 	}
 
@@ -519,8 +449,7 @@ func (this *StringMsgParser) ParseSIPHeader(h string) (*header.SIPHeader, error)
 		return nil, err
 	}
 
-	shp, err := hp.Parse()
-	return shp.(*header.SIPHeader), err
+	return hp.Parse()
 }
 
 /**
-- 
2.43.0


From 84dec73d59e7beda9449b88bddffcde8ba6e794d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:40 +0000
Subject: [PATCH 20/57] fix: parser: URIs are parsed completely or rejected

---
 sip/parser/URLParser.go | 181 +++++++++++++++++++++++++++-------------
 1 file changed, 122 insertions(+), 59 deletions(-)

diff --git a/sip/parser/URLParser.go b/sip/parser/URLParser.go
index ed56f36..5730dc9 100644
--- a/sip/parser/URLParser.go
+++ b/sip/parser/URLParser.go
@@ -11,6 +11,13 @@ import (
  */
 type URLParser struct {
 	SIPParser
+
+	// bare is set for an addr-spec without angle brackets in a header where
+	// semicolon-delimited parameters belong to the header (RFC 3261 20.20)
+	bare bool
+
+	// addrSpec is set for any addr-spec without angle brackets: a comma ends it
+	addrSpec bool
 }
 
 func NewURLParser(url string) *URLParser {
@@ -107,6 +114,9 @@ func (this *URLParser) UriParam() (nv *core.NameValue, ParseException error) {
 	}
 	next, _ := this.GetLexer().LookAheadK(0)
 	if next == '=' {
+		if pname == "" {
+			return nil, this.CreateParseException("Expecting a parameter name")
+		}
 		this.GetLexer().ConsumeK(1)
 		if pvalue, ParseException = this.ParamNameOrValue(); ParseException != nil {
 			return nil, ParseException
@@ -196,7 +206,7 @@ func (this *URLParser) Uric() string {
 func (this *URLParser) UricNoSlash() string {
 	la, _ := this.GetLexer().LookAheadK(0)
 	if this.IsEscaped() {
-		retval := this.GetLexer().CharAsString(3)
+		retval := this.GetLexer().NCharAsString(3)
 		this.GetLexer().ConsumeK(3)
 		return retval
 	} else if this.IsUnreserved(la) {
@@ -210,9 +220,18 @@ func (this *URLParser) UricNoSlash() string {
 	}
 }
 
+// isTerminator tells whether a character ends a URI that is not enclosed in
+// angle brackets.
+func (this *URLParser) isTerminator(la byte) bool {
+	return this.addrSpec && la == ',' || this.bare && (la == ';' || la == '?')
+}
+
 func (this *URLParser) UricString() string {
 	var retval bytes.Buffer
 	for {
+		if la, _ := this.GetLexer().LookAheadK(0); this.isTerminator(la) {
+			break
+		}
 		next := this.Uric()
 		if next == "" {
 			break
@@ -232,8 +251,11 @@ func (this *URLParser) UriReference() (url address.URI, ParseException error) {
 	vect, _ := this.GetLexer().PeekNextTokenK(2)
 	t1 := vect[0]
 	t2 := vect[1]
+	if t1 == nil || t2 == nil {
+		return nil, this.CreateParseException("Expecting a URI")
+	}
 
-	if t1.GetTokenType() == TokenTypes_SIP {
+	if t1.GetTokenType() == TokenTypes_SIP || strings.ToLower(t1.GetTokenValue()) == core.SIPTransportNames_SIPS {
 		if t2.GetTokenType() == ':' {
 			if retval, ParseException = this.SipURL(); ParseException != nil {
 				return nil, ParseException
@@ -251,7 +273,11 @@ func (this *URLParser) UriReference() (url address.URI, ParseException error) {
 		}
 	} else {
 		urlString := this.UricString()
-		retval = address.NewURIImpl(urlString)
+		uri := address.NewURIImpl(urlString)
+		if uri == nil {
+			return nil, this.CreateParseException("Expecting a URI scheme")
+		}
+		retval = uri
 	}
 
 	return retval, nil
@@ -312,14 +338,17 @@ func (this *URLParser) ParseTelephoneNumber() (tn *address.TelephoneNumber, Pars
 
 	c, _ := this.GetLexer().LookAheadK(0)
 	if c == '+' {
-		tn, _ = this.Global_phone_number()
+		tn, ParseException = this.Global_phone_number()
 	} else if this.GetLexer().IsAlpha(c) || this.GetLexer().IsDigit(c) ||
 		c == '-' || c == '*' || c == '.' ||
 		c == '(' || c == ')' || c == '#' {
-		tn, _ = this.Local_phone_number()
+		tn, ParseException = this.Local_phone_number()
 	} else {
 		return nil, this.CreateParseException("unexpected char " + string(c))
 	}
+	if ParseException != nil {
+		return nil, ParseException
+	}
 
 	return tn, nil
 }
@@ -328,14 +357,22 @@ func (this *URLParser) Global_phone_number() (tn *address.TelephoneNumber, Parse
 	tn = address.NewTelephoneNumber()
 	tn.SetGlobal(true)
 
-	this.GetLexer().Match(core.CORELEXER_PLUS)
-	b, _ := this.Base_phone_number()
+	if _, ParseException = this.GetLexer().Match(core.CORELEXER_PLUS); ParseException != nil {
+		return nil, ParseException
+	}
+	b, err := this.Base_phone_number()
+	if err != nil {
+		return nil, err
+	}
 	tn.SetPhoneNumber(b)
-	if this.GetLexer().HasMoreChars() {
+	if this.GetLexer().HasMoreChars() && !this.bare {
 		tok, _ := this.GetLexer().LookAheadK(0)
 		if tok == ';' {
 			this.GetLexer().ConsumeK(1)
-			nv, _ := this.Tel_parameters()
+			nv, err := this.Tel_parameters()
+			if err != nil {
+				return nil, err
+			}
 			tn.SetParameters(nv)
 		}
 	}
@@ -345,14 +382,20 @@ func (this *URLParser) Global_phone_number() (tn *address.TelephoneNumber, Parse
 func (this *URLParser) Local_phone_number() (tn *address.TelephoneNumber, ParseException error) {
 	tn = address.NewTelephoneNumber()
 	tn.SetGlobal(false)
-	b, _ := this.Local_number()
+	b, err := this.Local_number()
+	if err != nil {
+		return nil, err
+	}
 	tn.SetPhoneNumber(b)
-	if this.GetLexer().HasMoreChars() {
+	if this.GetLexer().HasMoreChars() && !this.bare {
 		tok, _ := this.GetLexer().PeekNextToken()
 		switch tok.GetTokenType() {
 		case TokenTypes_SEMICOLON:
 			this.GetLexer().ConsumeK(1)
-			nv, _ := this.Tel_parameters()
+			nv, err := this.Tel_parameters()
+			if err != nil {
+				return nil, err
+			}
 			tn.SetParameters(nv)
 		default:
 		}
@@ -370,6 +413,7 @@ func (this *URLParser) Tel_parameters() (nvl *core.NameValueList, ParseException
 		nvList.AddNameValue(nv)
 		tok, _ := this.GetLexer().LookAheadK(0)
 		if tok == ';' {
+			this.GetLexer().ConsumeK(1)
 			continue
 		} else {
 			break
@@ -382,8 +426,12 @@ func (this *URLParser) Tel_parameters() (nvl *core.NameValueList, ParseException
  *@return a parsed tel url structure.
  */
 func (this *URLParser) TelURL() (telUrl *address.TelURLImpl, ParseException error) {
-	this.GetLexer().Match(TokenTypes_TEL)
-	this.GetLexer().Match(':')
+	if _, ParseException = this.GetLexer().Match(TokenTypes_TEL); ParseException != nil {
+		return nil, ParseException
+	}
+	if _, ParseException = this.GetLexer().Match(':'); ParseException != nil {
+		return nil, ParseException
+	}
 
 	var tn *address.TelephoneNumber
 	if tn, ParseException = this.ParseTelephoneNumber(); ParseException != nil {
@@ -403,46 +451,38 @@ func (this *URLParser) TelURL() (telUrl *address.TelURLImpl, ParseException erro
 func (this *URLParser) SipURL() (sipurl *address.SipURIImpl, ParseException error) {
 	retval := address.NewSipURIImpl()
 
-	this.GetLexer().Match(TokenTypes_SIP)
-	this.GetLexer().Match(':')
-	retval.SetScheme(core.SIPTransportNames_SIP)
+	if ParseException = retval.SetScheme(this.GetLexer().GetNextId()); ParseException != nil {
+		return nil, ParseException
+	}
+	if _, ParseException = this.GetLexer().Match(':'); ParseException != nil {
+		return nil, ParseException
+	}
 
-	buffer := this.GetLexer().GetRest()
-	if n := strings.Index(buffer, "@"); n == -1 {
-		// hostPort
-		hnp := core.NewHostNameParserFromLexer(this.GetLexer())
-		hp, _ := hnp.GetHostPort()
-		retval.SetHostPort(hp)
+	// [user[:password]@]hostPort: what precedes the host is user information
+	// only if an '@' ends it.
+	start := this.GetLexer().MarkInputPosition()
+	var password string
+	user, _ := this.User()
+	if la, err := this.GetLexer().LookAheadK(0); err == nil && la == ':' {
+		this.GetLexer().ConsumeK(1)
+		password, _ = this.Password()
+	}
+	if la, err := this.GetLexer().LookAheadK(0); err == nil && la == '@' {
+		this.GetLexer().ConsumeK(1)
+		retval.SetUser(user)
+		retval.SetUserPassword(password)
 	} else {
-		var hp *core.HostPort
-		if n = strings.Index(buffer, ":"); n == -1 {
-			// name@hostPort
-			user, _ := this.User()
-			this.GetLexer().Match('@')
-			hnp := core.NewHostNameParserFromLexer(this.GetLexer())
-			if hp, ParseException = hnp.GetHostPort(); ParseException != nil {
-				return nil, ParseException
-			}
-			retval.SetUser(user)
-			retval.SetHostPort(hp)
-		} else {
-			user, _ := this.User()
-			// name:password@hostPort
-			this.GetLexer().Match(':')
-			password, _ := this.Password()
-			this.GetLexer().Match('@')
-			hnp := core.NewHostNameParserFromLexer(this.GetLexer())
-			if hp, ParseException = hnp.GetHostPort(); ParseException != nil {
-				return nil, ParseException
-			}
-			retval.SetUser(user)
-			retval.SetUserPassword(password)
-			retval.SetHostPort(hp)
-		}
+		this.GetLexer().RewindInputPosition(start)
+	}
+	hnp := core.NewHostNameParserFromLexer(this.GetLexer())
+	var hp *core.HostPort
+	if hp, ParseException = hnp.GetHostPort(); ParseException != nil {
+		return nil, ParseException
 	}
+	retval.SetHostPort(hp)
 	this.GetLexer().SelectLexer("charLexer")
 	for this.GetLexer().HasMoreChars() {
-		if la, _ := this.GetLexer().LookAheadK(0); la != ';' {
+		if la, _ := this.GetLexer().LookAheadK(0); la != ';' || this.bare {
 			break
 		}
 		this.GetLexer().ConsumeK(1)
@@ -453,12 +493,15 @@ func (this *URLParser) SipURL() (sipurl *address.SipURIImpl, ParseException erro
 		retval.SetUriParameter(parms)
 	}
 
-	if la, _ := this.GetLexer().LookAheadK(0); this.GetLexer().HasMoreChars() && la == '?' {
+	if la, _ := this.GetLexer().LookAheadK(0); this.GetLexer().HasMoreChars() && la == '?' && !this.bare {
 		this.GetLexer().ConsumeK(1)
 		for this.GetLexer().HasMoreChars() {
-			parms, _ := this.Qheader()
+			var parms *core.NameValue
+			if parms, ParseException = this.Qheader(); ParseException != nil {
+				return nil, ParseException
+			}
 			retval.SetQHeader(parms)
-			if la, _ = this.GetLexer().LookAheadK(0); this.GetLexer().HasMoreChars() && la != '&' {
+			if la, _ = this.GetLexer().LookAheadK(0); !this.GetLexer().HasMoreChars() || la != '&' {
 				break
 			} else {
 				this.GetLexer().ConsumeK(1)
@@ -470,7 +513,7 @@ func (this *URLParser) SipURL() (sipurl *address.SipURIImpl, ParseException erro
 
 func (this *URLParser) PeekScheme() (s string, ParseException error) {
 	tokens, _ := this.GetLexer().PeekNextTokenK(1)
-	if len(tokens) == 0 {
+	if len(tokens) == 0 || tokens[0] == nil {
 		return "", nil
 	}
 	scheme := tokens[0].GetTokenValue()
@@ -481,9 +524,19 @@ func (this *URLParser) PeekScheme() (s string, ParseException error) {
  * after the ?).
  */
 func (this *URLParser) Qheader() (nv *core.NameValue, ParseException error) {
-	name, _ := this.GetLexer().GetNextTokenByDelim('=')
-	this.GetLexer().ConsumeK(1)
-	value, _ := this.Hvalue()
+	var name, value string
+	if name, ParseException = this.Hvalue(); ParseException != nil {
+		return nil, ParseException
+	}
+	if name == "" {
+		return nil, this.CreateParseException("Expecting a header name")
+	}
+	if _, ParseException = this.GetLexer().Match('='); ParseException != nil {
+		return nil, ParseException
+	}
+	if value, ParseException = this.Hvalue(); ParseException != nil {
+		return nil, ParseException
+	}
 	return core.NewNameValue(name, value), nil
 
 }
@@ -496,12 +549,15 @@ func (this *URLParser) Hvalue() (s string, ParseException error) {
 		if la == '+' || la == '?' || la == ':' ||
 			la == '[' || la == ']' || la == '/' || la == '$' ||
 			la == '_' || la == '-' || la == '"' || la == '!' ||
-			la == '~' || la == '*' || la == '.' || la == '(' ||
+			la == '~' || la == '*' || la == '.' || la == '(' || la == '\'' ||
 			la == ')' || this.GetLexer().IsAlpha(la) || this.GetLexer().IsDigit(la) {
 			this.GetLexer().ConsumeK(1)
 			retval.WriteByte(la)
 		} else if la == '%' {
-			str, _ := this.Escaped()
+			var str string
+			if str, ParseException = this.Escaped(); ParseException != nil {
+				return "", ParseException
+			}
 			retval.WriteString(str)
 		} else {
 			break
@@ -526,7 +582,7 @@ func (this *URLParser) UrlString() (s string, ParseException error) {
 			la == '>' || la == '<' {
 			break
 		}
-		this.GetLexer().ConsumeK(0)
+		this.GetLexer().ConsumeK(1)
 		retval.WriteByte(la)
 	}
 	return retval.String(), nil
@@ -537,6 +593,9 @@ func (this *URLParser) User() (s string, ParseException error) {
 	for this.GetLexer().HasMoreChars() {
 		la, _ := this.GetLexer().LookAheadK(0)
 
+		if this.isTerminator(la) {
+			break
+		}
 		if this.IsUnreserved(la) ||
 			this.IsUserUnreserved(la) {
 			retval.WriteByte(la)
@@ -556,12 +615,16 @@ func (this *URLParser) Password() (s string, ParseException error) {
 	var retval bytes.Buffer
 	for {
 		la, _ := this.GetLexer().LookAheadK(0)
+		if this.isTerminator(la) {
+			break
+		}
 		if this.IsUnreserved(la) || la == '&' || la == '=' ||
 			la == '+' || la == '$' || la == ',' {
 			retval.WriteByte(la)
 			this.GetLexer().ConsumeK(1)
 		} else if this.IsEscaped() {
 			esc := this.GetLexer().NCharAsString(3)
+			this.GetLexer().ConsumeK(3)
 			retval.WriteString(esc)
 		} else {
 			break
-- 
2.43.0


From fda18e9c373f6a8078b3aaaef5e388b2a3f4bce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:40 +0000
Subject: [PATCH 21/57] fix: parser: addresses and their parameters

---
 sip/parser/AddressParametersParser.go | 25 +++++++++++++++++++++++--
 sip/parser/AddressParser.go           | 25 ++++++++++++++++++++-----
 sip/parser/ContactParser.go           | 15 +++++++++++----
 sip/parser/FromParser.go              | 22 ++++++----------------
 sip/parser/HeaderParser.go            | 14 ++++++++++----
 sip/parser/ParametersParser.go        |  2 +-
 sip/parser/ParserFactory.go           |  2 ++
 sip/parser/RecordRouteParser.go       | 15 +++++++++------
 sip/parser/ReferToParser.go           |  8 ++++++--
 sip/parser/ReplyToParser.go           | 10 +++++++---
 sip/parser/RouteParser.go             | 15 +++++++++------
 sip/parser/ToParser.go                | 21 ++++++---------------
 12 files changed, 110 insertions(+), 64 deletions(-)

diff --git a/sip/parser/AddressParametersParser.go b/sip/parser/AddressParametersParser.go
index 624ec6e..6ae81f6 100644
--- a/sip/parser/AddressParametersParser.go
+++ b/sip/parser/AddressParametersParser.go
@@ -33,12 +33,33 @@ func (this *AddressParametersParser) superFromLexer(lexer core.Lexer) {
 }
 
 func (this *AddressParametersParser) Parse(addressParametersHeader header.AddressParametersHeader) (ParseException error) {
+	return this.parse(addressParametersHeader, false)
+}
+
+// parseBare parses an address and parameters. The parameters that follow a
+// URI that is not enclosed in angle brackets are header parameters.
+func (this *AddressParametersParser) parseBare(addressParametersHeader header.AddressParametersHeader) (ParseException error) {
+	return this.parse(addressParametersHeader, true)
+}
+
+func (this *AddressParametersParser) parse(addressParametersHeader header.AddressParametersHeader, bare bool) (ParseException error) {
 	addressParser := NewAddressParserFromLexer(this.GetLexer())
+	addressParser.bare = bare
 	var addr *address.AddressImpl
 	if addr, ParseException = addressParser.Address(); ParseException != nil {
 		return ParseException
 	}
 	addressParametersHeader.SetAddress(addr)
-	ParseException = this.ParametersParser.Parse(addressParametersHeader)
-	return ParseException
+	if ParseException = this.ParametersParser.Parse(addressParametersHeader); ParseException != nil {
+		return ParseException
+	}
+	if bare && addr.GetAddressType() == address.ADDRESS_SPEC {
+		// after a bare URI a parameter without a value is encoded without one.
+		for e := addressParametersHeader.GetParameters().Front(); e != nil; e = e.Next() {
+			if nv := e.Value.(*core.NameValue); nv.GetValue() == "" && !nv.IsValueQuoted() {
+				nv.SetValue(nil)
+			}
+		}
+	}
+	return nil
 }
diff --git a/sip/parser/AddressParser.go b/sip/parser/AddressParser.go
index ee6cfc6..8d8bf8c 100644
--- a/sip/parser/AddressParser.go
+++ b/sip/parser/AddressParser.go
@@ -10,6 +10,10 @@ import (
  */
 type AddressParser struct {
 	SIPParser
+
+	// bare: the parameters that follow a URI that is not enclosed in angle
+	// brackets are not part of that URI
+	bare bool
 }
 
 func NewAddressParser(addr string) *AddressParser {
@@ -47,7 +51,9 @@ func (this *AddressParser) NameAddr() (addr *address.AddressImpl, ParseException
 	lexer := this.GetLexer()
 
 	if ch, _ = lexer.LookAheadK(0); ch == '<' {
-		lexer.Match('<')
+		if _, ParseException = lexer.Match('<'); ParseException != nil {
+			return nil, ParseException
+		}
 		lexer.SelectLexer("sip_urlLexer")
 		lexer.SPorHT()
 		uriParser := NewURLParserFromLexer(lexer)
@@ -58,7 +64,9 @@ func (this *AddressParser) NameAddr() (addr *address.AddressImpl, ParseException
 		addr.SetAddressType(address.NAME_ADDR)
 		addr.SetURI(uri)
 		lexer.SPorHT()
-		lexer.Match('>')
+		if _, ParseException = lexer.Match('>'); ParseException != nil {
+			return nil, ParseException
+		}
 		return addr, nil
 	} else {
 		addr = address.NewAddressImpl()
@@ -73,9 +81,12 @@ func (this *AddressParser) NameAddr() (addr *address.AddressImpl, ParseException
 			if name, ParseException = lexer.GetNextTokenByDelim('<'); ParseException != nil {
 				return nil, ParseException
 			}
+			name = strings.TrimSpace(name)
+		}
+		addr.SetDisplayName(name)
+		if _, ParseException = lexer.Match('<'); ParseException != nil {
+			return nil, ParseException
 		}
-		addr.SetDisplayName(strings.TrimSpace(name))
-		lexer.Match('<')
 		lexer.SPorHT()
 		uriParser := NewURLParserFromLexer(lexer)
 		if uri, ParseException = uriParser.UriReference(); ParseException != nil {
@@ -84,7 +95,9 @@ func (this *AddressParser) NameAddr() (addr *address.AddressImpl, ParseException
 		addr.SetAddressType(address.NAME_ADDR)
 		addr.SetURI(uri)
 		lexer.SPorHT()
-		lexer.Match('>')
+		if _, ParseException = lexer.Match('>'); ParseException != nil {
+			return nil, ParseException
+		}
 		return addr, nil
 	}
 }
@@ -115,6 +128,8 @@ func (this *AddressParser) Address() (retval *address.AddressImpl, ParseExceptio
 		ch == '/' {
 		retval = address.NewAddressImpl()
 		uriParser := NewURLParserFromLexer(lexer)
+		uriParser.bare = this.bare
+		uriParser.addrSpec = true
 
 		var uri address.URI
 		if uri, ParseException = uriParser.UriReference(); ParseException != nil {
diff --git a/sip/parser/ContactParser.go b/sip/parser/ContactParser.go
index b7bb1e8..90a100e 100644
--- a/sip/parser/ContactParser.go
+++ b/sip/parser/ContactParser.go
@@ -4,6 +4,7 @@ import (
 	"github.com/use-go/gosips/core"
 	"github.com/use-go/gosips/sip/header"
 	"strconv"
+	"strings"
 )
 
 /**
@@ -31,11 +32,15 @@ func (this *ContactParser) Parse() (sh header.Header, ParseException error) {
 	// past the header name and the colon.
 	lexer := this.GetLexer()
 	var la byte
-	this.HeaderName(TokenTypes_CONTACT)
+	if ParseException = this.HeaderName(TokenTypes_CONTACT); ParseException != nil {
+		return nil, ParseException
+	}
 	for {
 		contact := header.NewContact()
-		if la, _ = lexer.LookAheadK(0); la == '*' {
-			lexer.Match('*')
+		if la, _ = lexer.LookAheadK(0); la == '*' && strings.TrimSpace(lexer.GetRest()) == "*" {
+			if _, ParseException = lexer.Match('*'); ParseException != nil {
+				return nil, ParseException
+			}
 			contact.SetWildCardFlag(true)
 		} else {
 			if ParseException = this.AddressParametersParser.Parse(contact); ParseException != nil {
@@ -51,7 +56,9 @@ func (this *ContactParser) Parse() (sh header.Header, ParseException error) {
 		retval.AddContact(contact)
 		lexer.SPorHT()
 		if la, _ = lexer.LookAheadK(0); la == ',' {
-			lexer.Match(',')
+			if _, ParseException = lexer.Match(','); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
 		} else if la, _ = lexer.LookAheadK(0); la == '\n' {
 			break
diff --git a/sip/parser/FromParser.go b/sip/parser/FromParser.go
index c7aa786..05c2846 100644
--- a/sip/parser/FromParser.go
+++ b/sip/parser/FromParser.go
@@ -2,7 +2,6 @@ package parser
 
 import (
 	"github.com/use-go/gosips/core"
-	"github.com/use-go/gosips/sip/address"
 	"github.com/use-go/gosips/sip/header"
 )
 
@@ -30,25 +29,16 @@ func NewFromParserFromLexer(lexer core.Lexer) *FromParser {
 
 func (this *FromParser) Parse() (sh header.Header, ParseException error) {
 	from := header.NewFrom()
-	this.HeaderName(TokenTypes_FROM)
-
-	if ParseException = this.AddressParametersParser.Parse(from); ParseException != nil {
+	if ParseException = this.HeaderName(TokenTypes_FROM); ParseException != nil {
 		return nil, ParseException
 	}
 
-	this.GetLexer().Match('\n')
-	addr := from.GetAddress().(*address.AddressImpl)
-	if addr.GetAddressType() == address.ADDRESS_SPEC {
-		// the parameters are header parameters.
-		if from.GetAddress().GetURI().IsSipURI() {
-			sipUri, _ := from.GetAddress().GetURI().(*address.SipURIImpl)
-			parms := sipUri.GetUriParms()
-			if parms != nil && parms.Len() > 0 {
-				from.SetParameters(parms)
-				sipUri.RemoveUriParms()
-			}
-		}
+	if ParseException = this.AddressParametersParser.parseBare(from); ParseException != nil {
+		return nil, ParseException
 	}
 
+	if _, ParseException = this.GetLexer().Match('\n'); ParseException != nil {
+		return nil, ParseException
+	}
 	return from, nil
 }
diff --git a/sip/parser/HeaderParser.go b/sip/parser/HeaderParser.go
index e10bf88..7493f1f 100644
--- a/sip/parser/HeaderParser.go
+++ b/sip/parser/HeaderParser.go
@@ -63,16 +63,22 @@ func (this *HeaderParser) Parse() (sh header.Header, ParseException error) {
 	body := strings.TrimSpace(lexer.GetLine())
 
 	// we dont set any fields because the header is ok
-	retval := header.NewExtension(name)
+	retval := header.NewExtension(strings.TrimSpace(name))
 	retval.SetValue(body)
 	return retval, nil
 }
 
 /** Parse the header name until the colon  and chew WS after that.
  */
-func (this *HeaderParser) HeaderName(tok int) {
-	this.GetLexer().Match(tok)
+func (this *HeaderParser) HeaderName(tok int) (ParseException error) {
+	// the parser was selected by the header name: any name will do here.
+	if _, ParseException = this.GetLexer().Match(TokenTypes_ID); ParseException != nil {
+		return ParseException
+	}
 	this.GetLexer().SPorHT()
-	this.GetLexer().Match(':')
+	if _, ParseException = this.GetLexer().Match(':'); ParseException != nil {
+		return ParseException
+	}
 	this.GetLexer().SPorHT()
+	return nil
 }
diff --git a/sip/parser/ParametersParser.go b/sip/parser/ParametersParser.go
index e14e7ae..0758647 100644
--- a/sip/parser/ParametersParser.go
+++ b/sip/parser/ParametersParser.go
@@ -52,7 +52,7 @@ func (this *ParametersParser) Parse(parametersHeader header.ParametersHeader) (P
 		}
 
 		if nv.IsValueQuoted() {
-			parametersHeader.SetParameter(nv.GetName(), "\""+nv.GetValue().(string)+"\"")
+			parametersHeader.SetQuotedParameter(nv.GetName(), nv.GetValue().(string))
 		} else {
 			parametersHeader.SetParameter(nv.GetName(), nv.GetValue().(string))
 		}
diff --git a/sip/parser/ParserFactory.go b/sip/parser/ParserFactory.go
index ee14e16..b941ffd 100644
--- a/sip/parser/ParserFactory.go
+++ b/sip/parser/ParserFactory.go
@@ -145,6 +145,8 @@ func CreateParser(line string) (parser Parser, ParseException error) {
 		parser = NewAlertInfoParser(line)
 	case strings.ToLower(core.SIPHeaderNames_ACCEPT):
 		parser = NewAcceptParser(line)
+	case "r":
+		parser = NewReferToParser(line)
 	case strings.ToLower(core.SIPHeaderNames_REFER_TO):
 		parser = NewReferToParser(line)
 	default:
diff --git a/sip/parser/RecordRouteParser.go b/sip/parser/RecordRouteParser.go
index f6e07b3..3cd5432 100644
--- a/sip/parser/RecordRouteParser.go
+++ b/sip/parser/RecordRouteParser.go
@@ -35,17 +35,20 @@ func (this *RecordRouteParser) Parse() (sh header.Header, ParseException error)
 
 	var ch byte
 	lexer := this.GetLexer()
-	lexer.Match(TokenTypes_RECORD_ROUTE)
-	lexer.SPorHT()
-	lexer.Match(':')
-	lexer.SPorHT()
+	if ParseException = this.HeaderName(TokenTypes_RECORD_ROUTE); ParseException != nil {
+		return nil, ParseException
+	}
 	for {
 		recordRoute := header.NewRecordRoute()
-		this.AddressParametersParser.Parse(recordRoute)
+		if ParseException = this.AddressParametersParser.Parse(recordRoute); ParseException != nil {
+			return nil, ParseException
+		}
 		recordRouteList.PushBack(recordRoute)
 		lexer.SPorHT()
 		if ch, _ = lexer.LookAheadK(0); ch == ',' {
-			lexer.Match(',')
+			if _, ParseException = lexer.Match(','); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
 		} else if ch, _ = lexer.LookAheadK(0); ch == '\n' {
 			break
diff --git a/sip/parser/ReferToParser.go b/sip/parser/ReferToParser.go
index 7985945..a81ac34 100644
--- a/sip/parser/ReferToParser.go
+++ b/sip/parser/ReferToParser.go
@@ -28,11 +28,15 @@ func NewReferToParserFromLexer(lexer core.Lexer) *ReferToParser {
 
 func (this *ReferToParser) Parse() (sh header.Header, ParseException error) {
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_REFER_TO)
+	if ParseException = this.HeaderName(TokenTypes_REFER_TO); ParseException != nil {
+		return nil, ParseException
+	}
 	referTo := header.NewReferTo()
 	if ParseException = this.AddressParametersParser.Parse(referTo); ParseException != nil {
 		return nil, ParseException
 	}
-	lexer.Match('\n')
+	if _, ParseException = lexer.Match('\n'); ParseException != nil {
+		return nil, ParseException
+	}
 	return referTo, nil
 }
diff --git a/sip/parser/ReplyToParser.go b/sip/parser/ReplyToParser.go
index b6e0a60..7804db9 100644
--- a/sip/parser/ReplyToParser.go
+++ b/sip/parser/ReplyToParser.go
@@ -37,11 +37,15 @@ func NewReplyToParserFromLexer(lexer core.Lexer) *ReplyToParser {
 func (this *ReplyToParser) Parse() (sh header.Header, ParseException error) {
 	replyTo := header.NewReplyTo()
 
-	this.HeaderName(TokenTypes_REPLY_TO)
+	if ParseException = this.HeaderName(TokenTypes_REPLY_TO); ParseException != nil {
+		return nil, ParseException
+	}
 
 	replyTo.SetHeaderName(core.SIPHeaderNames_REPLY_TO)
 
-	ParseException = this.AddressParametersParser.Parse(replyTo)
+	if ParseException = this.AddressParametersParser.Parse(replyTo); ParseException != nil {
+		return nil, ParseException
+	}
 
-	return replyTo, ParseException
+	return replyTo, nil
 }
diff --git a/sip/parser/RouteParser.go b/sip/parser/RouteParser.go
index 03a8258..e83d139 100644
--- a/sip/parser/RouteParser.go
+++ b/sip/parser/RouteParser.go
@@ -36,17 +36,20 @@ func (this *RouteParser) Parse() (sh header.Header, ParseException error) {
 
 	var ch byte
 	lexer := this.GetLexer()
-	lexer.Match(TokenTypes_ROUTE)
-	lexer.SPorHT()
-	lexer.Match(':')
-	lexer.SPorHT()
+	if ParseException = this.HeaderName(TokenTypes_ROUTE); ParseException != nil {
+		return nil, ParseException
+	}
 	for {
 		route := header.NewRoute()
-		this.AddressParametersParser.Parse(route)
+		if ParseException = this.AddressParametersParser.Parse(route); ParseException != nil {
+			return nil, ParseException
+		}
 		routeList.PushBack(route)
 		lexer.SPorHT()
 		if ch, _ = lexer.LookAheadK(0); ch == ',' {
-			lexer.Match(',')
+			if _, ParseException = lexer.Match(','); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
 		} else if ch, _ = lexer.LookAheadK(0); ch == '\n' {
 			break
diff --git a/sip/parser/ToParser.go b/sip/parser/ToParser.go
index 92d7c93..5e806b4 100644
--- a/sip/parser/ToParser.go
+++ b/sip/parser/ToParser.go
@@ -2,7 +2,6 @@ package parser
 
 import (
 	"github.com/use-go/gosips/core"
-	"github.com/use-go/gosips/sip/address"
 	"github.com/use-go/gosips/sip/header"
 )
 
@@ -28,24 +27,16 @@ func NewToParserFromLexer(lexer core.Lexer) *ToParser {
 
 func (this *ToParser) Parse() (sh header.Header, ParseException error) {
 	to := header.NewTo()
-	this.HeaderName(TokenTypes_TO)
+	if ParseException = this.HeaderName(TokenTypes_TO); ParseException != nil {
+		return nil, ParseException
+	}
 
-	if ParseException = this.AddressParametersParser.Parse(to); ParseException != nil {
+	if ParseException = this.AddressParametersParser.parseBare(to); ParseException != nil {
 		return nil, ParseException
 	}
 
-	this.GetLexer().Match('\n')
-	addr := to.GetAddress().(*address.AddressImpl)
-	if addr.GetAddressType() == address.ADDRESS_SPEC {
-		// the parameters are header parameters.
-		if to.GetAddress().GetURI().IsSipURI() {
-			sipUri, _ := to.GetAddress().GetURI().(*address.SipURIImpl)
-			parms := sipUri.GetUriParms()
-			if parms != nil && parms.Len() > 0 {
-				to.SetParameters(parms)
-				sipUri.RemoveUriParms()
-			}
-		}
+	if _, ParseException = this.GetLexer().Match('\n'); ParseException != nil {
+		return nil, ParseException
 	}
 	return to, nil
 }
-- 
2.43.0


From 0fec58d1ecbdacd1247b03e2c0894b05b8ab67d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:40 +0000
Subject: [PATCH 22/57] fix: parser: Via header

---
 sip/parser/ViaParser.go | 118 ++++++++++++++++++++++++++--------------
 1 file changed, 78 insertions(+), 40 deletions(-)

diff --git a/sip/parser/ViaParser.go b/sip/parser/ViaParser.go
index 1885fac..13f53be 100644
--- a/sip/parser/ViaParser.go
+++ b/sip/parser/ViaParser.go
@@ -32,7 +32,9 @@ func (this *ViaParser) ParseVia(v *header.Via) (ParseException error) {
 
 	var protocolName, protocolVersion *core.Token
 	// The protocol
-	lexer.Match(TokenTypes_ID)
+	if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+		return ParseException
+	}
 
 	if protocolName = lexer.GetNextToken(); protocolName.GetTokenValue() != "SIP" {
 		return this.CreateParseException("Protcoal Not Supported error")
@@ -40,9 +42,13 @@ func (this *ViaParser) ParseVia(v *header.Via) (ParseException error) {
 
 	lexer.SPorHT()
 	// consume the "/"
-	lexer.Match('/')
+	if _, ParseException = lexer.Match('/'); ParseException != nil {
+		return ParseException
+	}
 	lexer.SPorHT()
-	lexer.Match(TokenTypes_ID)
+	if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+		return ParseException
+	}
 	lexer.SPorHT()
 	if protocolVersion = lexer.GetNextToken(); protocolVersion.GetTokenValue() != "2.0" {
 		return this.CreateParseException("Version Not Supported error")
@@ -51,9 +57,13 @@ func (this *ViaParser) ParseVia(v *header.Via) (ParseException error) {
 	lexer.SPorHT()
 
 	// We consume the "/"
-	lexer.Match('/')
+	if _, ParseException = lexer.Match('/'); ParseException != nil {
+		return ParseException
+	}
 	lexer.SPorHT()
-	lexer.Match(TokenTypes_ID)
+	if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+		return ParseException
+	}
 	lexer.SPorHT()
 
 	transport := lexer.GetNextToken()
@@ -78,8 +88,15 @@ func (this *ViaParser) ParseVia(v *header.Via) (ParseException error) {
 	lexer.SPorHT()
 
 	var la byte
+	if la, _ = lexer.LookAheadK(0); la == '(' {
+		if ParseException = this.parseComment(v); ParseException != nil {
+			return ParseException
+		}
+	}
 	for la, _ = lexer.LookAheadK(0); la == ';'; la, _ = lexer.LookAheadK(0) {
-		lexer.Match(';')
+		if _, ParseException = lexer.Match(';'); ParseException != nil {
+			return ParseException
+		}
 		lexer.SPorHT()
 
 		var nameValue *core.NameValue
@@ -93,36 +110,45 @@ func (this *ViaParser) ParseVia(v *header.Via) (ParseException error) {
 		lexer.SPorHT()
 	}
 
+	// a comment may also follow the parameters
 	if la, _ = lexer.LookAheadK(0); la == '(' {
-		lexer.SelectLexer("charLexer")
-		lexer.ConsumeK(1)
+		return this.parseComment(v)
+	}
 
-		var comment bytes.Buffer
-		for {
-			ch, _ := lexer.LookAheadK(0)
-			if ch == ')' {
-				lexer.ConsumeK(1)
-				break
-			} else if ch == '\\' {
-				// Escaped character
-				tok := lexer.GetNextToken()
-				comment.WriteString(tok.GetTokenValue())
-				lexer.ConsumeK(1)
-				tok = lexer.GetNextToken()
-				comment.WriteString(tok.GetTokenValue())
-				lexer.ConsumeK(1)
-			} else if ch == '\n' {
-				break
-			} else {
-				comment.WriteByte(ch)
-				lexer.ConsumeK(1)
+	return nil
+
+}
+
+// parseComment parses a comment and the blanks that follow it.
+func (this *ViaParser) parseComment(v *header.Via) (ParseException error) {
+	lexer := this.GetLexer()
+	lexer.SelectLexer("charLexer")
+	lexer.ConsumeK(1)
+
+	var comment bytes.Buffer
+	for {
+		ch, err := lexer.LookAheadK(0)
+		if err != nil || ch == '\n' {
+			return this.CreateParseException("unterminated comment")
+		}
+		lexer.ConsumeK(1)
+		if ch == ')' {
+			break
+		}
+		comment.WriteByte(ch)
+		if ch == '\\' {
+			// Escaped character
+			if ch, err = lexer.LookAheadK(0); err != nil {
+				return err
 			}
+			lexer.ConsumeK(1)
+			comment.WriteByte(ch)
 		}
-		v.SetComment(comment.String())
 	}
+	v.SetComment(comment.String())
+	lexer.SPorHT()
 
 	return nil
-
 }
 
 /** Overrides the superclass nameValue parser because
@@ -130,7 +156,9 @@ func (this *ViaParser) ParseVia(v *header.Via) (ParseException error) {
  */
 func (this *ViaParser) NameValue() (nv *core.NameValue, ParseException error) {
 	lexer := this.GetLexer()
-	lexer.Match(core.CORELEXER_ID)
+	if _, ParseException = lexer.Match(core.CORELEXER_ID); ParseException != nil {
+		return nil, ParseException
+	}
 	name := lexer.GetNextToken()
 
 	// eat white space.
@@ -143,10 +171,16 @@ func (this *ViaParser) NameValue() (nv *core.NameValue, ParseException error) {
 		lexer.ConsumeK(1)
 		lexer.SPorHT()
 		var str string
-		if strings.ToLower(name.GetTokenValue()) == core.SIPParameters_RECEIVED {
+		if strings.ToLower(name.GetTokenValue()) == core.SIPParameters_RECEIVED ||
+			strings.ToLower(name.GetTokenValue()) == core.SIPParameters_MADDR {
 			// Allow for IPV6 Addresses.
 			// these could have : in them!
-			str = lexer.ByteStringNoSemicolon()
+			var value bytes.Buffer
+			for la, ParseException = lexer.LookAheadK(0); ParseException == nil && !strings.ContainsRune(";, \t\n(", rune(la)); la, ParseException = lexer.LookAheadK(0) {
+				lexer.ConsumeK(1)
+				value.WriteByte(la)
+			}
+			str = value.String()
 		} else {
 			if la, _ = lexer.LookAheadK(0); la == '"' {
 				if str, ParseException = lexer.QuotedString(); ParseException != nil {
@@ -154,7 +188,9 @@ func (this *ViaParser) NameValue() (nv *core.NameValue, ParseException error) {
 				}
 				quoted = true
 			} else {
-				lexer.Match(core.CORELEXER_ID)
+				if _, ParseException = lexer.Match(core.CORELEXER_ID); ParseException != nil {
+					return nil, ParseException
+				}
 				value := lexer.GetNextToken()
 				str = value.GetTokenValue()
 			}
@@ -175,10 +211,9 @@ func (this *ViaParser) Parse() (sh header.Header, ParseException error) {
 	viaList := header.NewViaList()
 
 	// The first via header.
-	lexer.Match(TokenTypes_VIA)
-	lexer.SPorHT()   // ignore blanks
-	lexer.Match(':') // expect a colon.
-	lexer.SPorHT()   // ingore blanks.
+	if ParseException = this.HeaderName(TokenTypes_VIA); ParseException != nil {
+		return nil, ParseException
+	}
 
 	for {
 		v := header.NewVia()
@@ -190,12 +225,15 @@ func (this *ViaParser) Parse() (sh header.Header, ParseException error) {
 		if la, _ := lexer.LookAheadK(0); la == ',' {
 			lexer.ConsumeK(1) // Consume the comma
 			lexer.SPorHT()    // Ignore space after.
-		}
-		if la, _ := lexer.LookAheadK(0); la == '\n' {
+		} else if la == '\n' {
 			break
+		} else {
+			return nil, this.CreateParseException("unexpected char")
 		}
 	}
-	lexer.Match('\n')
+	if _, ParseException = lexer.Match('\n'); ParseException != nil {
+		return nil, ParseException
+	}
 
 	return viaList, nil
 }
-- 
2.43.0


From 9c718527e5764d5ac40dfb1ad80998692664785c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:40 +0000
Subject: [PATCH 23/57] fix: parser: authentication headers

---
 sip/parser/AuthenticationInfoParser.go | 20 +++++++++++++++-----
 sip/parser/AuthorizationParser.go      | 10 +++++++---
 sip/parser/ChallengeParser.go          |  8 ++++++--
 sip/parser/ProxyAuthenticateParser.go  | 10 +++++++---
 sip/parser/ProxyAuthorizationParser.go | 10 +++++++---
 sip/parser/WWWAuthenticateParser.go    | 10 +++++++---
 6 files changed, 49 insertions(+), 19 deletions(-)

diff --git a/sip/parser/AuthenticationInfoParser.go b/sip/parser/AuthenticationInfoParser.go
index 3959051..dd3ee9d 100644
--- a/sip/parser/AuthenticationInfoParser.go
+++ b/sip/parser/AuthenticationInfoParser.go
@@ -39,7 +39,9 @@ func (this *AuthenticationInfoParser) Parse() (sh header.Header, ParseException
 	var ch byte
 	var nv *core.NameValue
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_AUTHENTICATION_INFO)
+	if ParseException = this.HeaderName(TokenTypes_AUTHENTICATION_INFO); ParseException != nil {
+		return nil, ParseException
+	}
 
 	authenticationInfo := header.NewAuthenticationInfo()
 	authenticationInfo.SetHeaderName(core.SIPHeaderNames_AUTHENTICATION_INFO)
@@ -49,22 +51,30 @@ func (this *AuthenticationInfoParser) Parse() (sh header.Header, ParseException
 	if nv, ParseException = this.NameValue('='); ParseException != nil {
 		return nil, ParseException
 	}
-	authenticationInfo.SetParameter(nv.GetName(), nv.GetValue().(string))
+	if ParseException = authenticationInfo.SetParameter(nv.GetName(), nv.GetValue().(string)); ParseException != nil {
+		return nil, ParseException
+	}
 
 	lexer.SPorHT()
 	for ch, _ = lexer.LookAheadK(0); ch == ','; ch, _ = lexer.LookAheadK(0) {
-		lexer.Match(',')
+		if _, ParseException = lexer.Match(','); ParseException != nil {
+			return nil, ParseException
+		}
 		lexer.SPorHT()
 
 		if nv, ParseException = this.NameValue('='); ParseException != nil {
 			return nil, ParseException
 		}
-		authenticationInfo.SetParameter(nv.GetName(), nv.GetValue().(string))
+		if ParseException = authenticationInfo.SetParameter(nv.GetName(), nv.GetValue().(string)); ParseException != nil {
+			return nil, ParseException
+		}
 
 		lexer.SPorHT()
 	}
 	lexer.SPorHT()
-	lexer.Match('\n')
+	if _, ParseException = lexer.Match('\n'); ParseException != nil {
+		return nil, ParseException
+	}
 
 	return authenticationInfo, nil
 }
diff --git a/sip/parser/AuthorizationParser.go b/sip/parser/AuthorizationParser.go
index ef04392..c60a0d7 100644
--- a/sip/parser/AuthorizationParser.go
+++ b/sip/parser/AuthorizationParser.go
@@ -34,8 +34,12 @@ func NewAuthorizationParserFromLexer(lexer core.Lexer) *AuthorizationParser {
  * @throws SIPParseException if the message does not respect the spec.
  */
 func (this *AuthorizationParser) Parse() (sh header.Header, ParseException error) {
-	this.HeaderName(TokenTypes_AUTHORIZATION)
+	if ParseException = this.HeaderName(TokenTypes_AUTHORIZATION); ParseException != nil {
+		return nil, ParseException
+	}
 	auth := header.NewAuthorization()
-	ParseException = this.ChallengeParser.Parse(auth)
-	return auth, ParseException
+	if ParseException = this.ChallengeParser.Parse(auth); ParseException != nil {
+		return nil, ParseException
+	}
+	return auth, nil
 }
diff --git a/sip/parser/ChallengeParser.go b/sip/parser/ChallengeParser.go
index 4b273c4..fd00ced 100644
--- a/sip/parser/ChallengeParser.go
+++ b/sip/parser/ChallengeParser.go
@@ -59,7 +59,9 @@ func (this *ChallengeParser) Parse(h header.AuthorizationHeader) (ParseException
 	lexer := this.GetLexer()
 	// the Scheme:
 	lexer.SPorHT()
-	lexer.Match(TokenTypes_ID)
+	if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+		return ParseException
+	}
 	t := lexer.GetNextToken()
 	lexer.SPorHT()
 	h.SetScheme(t.GetTokenValue())
@@ -73,7 +75,9 @@ func (this *ChallengeParser) Parse(h header.AuthorizationHeader) (ParseException
 		if ch, ParseException = lexer.LookAheadK(0); ch == '\n' || ParseException != nil { //||ch=='\0'
 			break
 		}
-		lexer.Match(',')
+		if _, ParseException = lexer.Match(','); ParseException != nil {
+			return ParseException
+		}
 		lexer.SPorHT()
 	}
 	return nil
diff --git a/sip/parser/ProxyAuthenticateParser.go b/sip/parser/ProxyAuthenticateParser.go
index cf27453..b89d09d 100644
--- a/sip/parser/ProxyAuthenticateParser.go
+++ b/sip/parser/ProxyAuthenticateParser.go
@@ -34,8 +34,12 @@ func NewProxyAuthenticateParserFromLexer(lexer core.Lexer) *ProxyAuthenticatePar
  * @throws ParseException if the message does not respect the spec.
  */
 func (this *ProxyAuthenticateParser) Parse() (sh header.Header, ParseException error) {
-	this.HeaderName(TokenTypes_PROXY_AUTHENTICATE)
+	if ParseException = this.HeaderName(TokenTypes_PROXY_AUTHENTICATE); ParseException != nil {
+		return nil, ParseException
+	}
 	proxyAuthenticate := header.NewProxyAuthenticate()
-	ParseException = this.ChallengeParser.Parse(proxyAuthenticate)
-	return proxyAuthenticate, ParseException
+	if ParseException = this.ChallengeParser.Parse(proxyAuthenticate); ParseException != nil {
+		return nil, ParseException
+	}
+	return proxyAuthenticate, nil
 }
diff --git a/sip/parser/ProxyAuthorizationParser.go b/sip/parser/ProxyAuthorizationParser.go
index 88fc298..358b72f 100644
--- a/sip/parser/ProxyAuthorizationParser.go
+++ b/sip/parser/ProxyAuthorizationParser.go
@@ -34,8 +34,12 @@ func NewProxyAuthorizationParserFromLexer(lexer core.Lexer) *ProxyAuthorizationP
  * @throws ParseException if the message does not respect the spec.
  */
 func (this *ProxyAuthorizationParser) Parse() (sh header.Header, ParseException error) {
-	this.HeaderName(TokenTypes_PROXY_AUTHORIZATION)
+	if ParseException = this.HeaderName(TokenTypes_PROXY_AUTHORIZATION); ParseException != nil {
+		return nil, ParseException
+	}
 	proxyAuth := header.NewProxyAuthorization()
-	ParseException = this.ChallengeParser.Parse(proxyAuth)
-	return proxyAuth, ParseException
+	if ParseException = this.ChallengeParser.Parse(proxyAuth); ParseException != nil {
+		return nil, ParseException
+	}
+	return proxyAuth, nil
 }
diff --git a/sip/parser/WWWAuthenticateParser.go b/sip/parser/WWWAuthenticateParser.go
index d9e0327..ed3c14e 100644
--- a/sip/parser/WWWAuthenticateParser.go
+++ b/sip/parser/WWWAuthenticateParser.go
@@ -34,8 +34,12 @@ func NewWWWAuthenticateParserFromLexer(lexer core.Lexer) *WWWAuthenticateParser
  * @throws SIPParseException if the message does not respect the spec.
  */
 func (this *WWWAuthenticateParser) Parse() (sh header.Header, ParseException error) {
-	this.HeaderName(TokenTypes_WWW_AUTHENTICATE)
+	if ParseException = this.HeaderName(TokenTypes_WWW_AUTHENTICATE); ParseException != nil {
+		return nil, ParseException
+	}
 	wwwAuthenticate := header.NewWWWAuthenticate()
-	ParseException = this.ChallengeParser.Parse(wwwAuthenticate)
-	return wwwAuthenticate, ParseException
+	if ParseException = this.ChallengeParser.Parse(wwwAuthenticate); ParseException != nil {
+		return nil, ParseException
+	}
+	return wwwAuthenticate, nil
 }
-- 
2.43.0


From 85baefb5f9233eb5837b5f660dada7a8df964033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:40 +0000
Subject: [PATCH 24/57] fix: parser: Accept, Accept-Encoding and
 Accept-Language

---
 sip/parser/AcceptEncodingParser.go | 29 +++++++++++++++-----
 sip/parser/AcceptLanguageParser.go | 29 +++++++++++++++-----
 sip/parser/AcceptParser.go         | 44 +++++++++++++++++++++++-------
 3 files changed, 78 insertions(+), 24 deletions(-)

diff --git a/sip/parser/AcceptEncodingParser.go b/sip/parser/AcceptEncodingParser.go
index 896aa62..d9a7af9 100644
--- a/sip/parser/AcceptEncodingParser.go
+++ b/sip/parser/AcceptEncodingParser.go
@@ -62,7 +62,9 @@ func (this *AcceptEncodingParser) Parse() (sh header.Header, ParseException erro
 
 	var ch byte
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_ACCEPT_ENCODING)
+	if ParseException = this.HeaderName(TokenTypes_ACCEPT_ENCODING); ParseException != nil {
+		return nil, ParseException
+	}
 
 	// empty body is fine for this header.
 	if ch, _ = lexer.LookAheadK(0); ch == '\n' {
@@ -72,19 +74,30 @@ func (this *AcceptEncodingParser) Parse() (sh header.Header, ParseException erro
 		for ch, _ = lexer.LookAheadK(0); ch != '\n'; ch, _ = lexer.LookAheadK(0) {
 			acceptEncoding := header.NewAcceptEncoding()
 			if ch, _ = lexer.LookAheadK(0); ch != ';' { // Content-Coding:
-				lexer.Match(TokenTypes_ID)
+				if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+					return nil, ParseException
+				}
 				value := lexer.GetNextToken()
 				acceptEncoding.SetEncoding(value.GetTokenValue())
+				lexer.SPorHT()
 			}
 
 			for ch, _ = lexer.LookAheadK(0); ch == ';'; ch, _ = lexer.LookAheadK(0) {
-				lexer.Match(';')
+				if _, ParseException = lexer.Match(';'); ParseException != nil {
+					return nil, ParseException
+				}
 				lexer.SPorHT()
-				lexer.Match('q')
+				if _, ParseException = lexer.Match('q'); ParseException != nil {
+					return nil, ParseException
+				}
 				lexer.SPorHT()
-				lexer.Match('=')
+				if _, ParseException = lexer.Match('='); ParseException != nil {
+					return nil, ParseException
+				}
 				lexer.SPorHT()
-				lexer.Match(TokenTypes_ID)
+				if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+					return nil, ParseException
+				}
 				value := lexer.GetNextToken()
 
 				var qv float64
@@ -99,7 +112,9 @@ func (this *AcceptEncodingParser) Parse() (sh header.Header, ParseException erro
 
 			acceptEncodingList.PushBack(acceptEncoding)
 			if ch, _ = lexer.LookAheadK(0); ch == ',' {
-				lexer.Match(',')
+				if _, ParseException = lexer.Match(','); ParseException != nil {
+					return nil, ParseException
+				}
 				lexer.SPorHT()
 			}
 
diff --git a/sip/parser/AcceptLanguageParser.go b/sip/parser/AcceptLanguageParser.go
index cab954d..225d3b3 100644
--- a/sip/parser/AcceptLanguageParser.go
+++ b/sip/parser/AcceptLanguageParser.go
@@ -56,25 +56,38 @@ func (this *AcceptLanguageParser) Parse() (sh header.Header, ParseException erro
 
 	var ch byte
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_ACCEPT_LANGUAGE)
+	if ParseException = this.HeaderName(TokenTypes_ACCEPT_LANGUAGE); ParseException != nil {
+		return nil, ParseException
+	}
 
 	for ch, _ = lexer.LookAheadK(0); ch != '\n'; ch, _ = lexer.LookAheadK(0) {
 		acceptLanguage := header.NewAcceptLanguage()
 		acceptLanguage.SetHeaderName(core.SIPHeaderNames_ACCEPT_LANGUAGE)
 		if ch, _ = lexer.LookAheadK(0); ch != ';' { // Content-Coding:
-			lexer.Match(TokenTypes_ID)
+			if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+				return nil, ParseException
+			}
 			value := lexer.GetNextToken()
 			acceptLanguage.SetLanguageRange(value.GetTokenValue())
+			lexer.SPorHT()
 		}
 
 		for ch, _ = lexer.LookAheadK(0); ch == ';'; ch, _ = lexer.LookAheadK(0) {
-			lexer.Match(';')
+			if _, ParseException = lexer.Match(';'); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
-			lexer.Match('q')
+			if _, ParseException = lexer.Match('q'); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
-			lexer.Match('=')
+			if _, ParseException = lexer.Match('='); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
-			lexer.Match(TokenTypes_ID)
+			if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+				return nil, ParseException
+			}
 			value := lexer.GetNextToken()
 
 			var qv float64
@@ -91,7 +104,9 @@ func (this *AcceptLanguageParser) Parse() (sh header.Header, ParseException erro
 
 		acceptLanguageList.PushBack(acceptLanguage)
 		if ch, _ = lexer.LookAheadK(0); ch == ',' {
-			lexer.Match(',')
+			if _, ParseException = lexer.Match(','); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
 		} else {
 			lexer.SPorHT()
diff --git a/sip/parser/AcceptParser.go b/sip/parser/AcceptParser.go
index 705d87d..425712a 100644
--- a/sip/parser/AcceptParser.go
+++ b/sip/parser/AcceptParser.go
@@ -47,39 +47,63 @@ func (this *AcceptParser) Parse() (sh header.Header, ParseException error) {
 
 	var ch byte
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_ACCEPT)
+	if ParseException = this.HeaderName(TokenTypes_ACCEPT); ParseException != nil {
+		return nil, ParseException
+	}
 
 	accept := header.NewAccept()
 	accept.SetHeaderName(core.SIPHeaderNames_ACCEPT)
 
 	lexer.SPorHT()
-	lexer.Match(TokenTypes_ID)
+	if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+		return nil, ParseException
+	}
 	token := lexer.GetNextToken()
 	accept.SetContentType(token.GetTokenValue())
-	lexer.Match('/')
-	lexer.Match(TokenTypes_ID)
+	lexer.SPorHT()
+	if _, ParseException = lexer.Match('/'); ParseException != nil {
+		return nil, ParseException
+	}
+	lexer.SPorHT()
+	if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+		return nil, ParseException
+	}
 	token = lexer.GetNextToken()
 	accept.SetContentSubType(token.GetTokenValue())
 	lexer.SPorHT()
 
-	this.ParametersParser.Parse(accept)
+	if ParseException = this.ParametersParser.Parse(accept); ParseException != nil {
+		return nil, ParseException
+	}
 	acceptList.PushBack(accept)
 
 	for ch, _ = lexer.LookAheadK(0); ch == ','; ch, _ = lexer.LookAheadK(0) {
-		lexer.Match(',')
+		if _, ParseException = lexer.Match(','); ParseException != nil {
+			return nil, ParseException
+		}
 		lexer.SPorHT()
 
 		accept = header.NewAccept()
 
-		lexer.Match(TokenTypes_ID)
+		if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+			return nil, ParseException
+		}
 		token = lexer.GetNextToken()
 		accept.SetContentType(token.GetTokenValue())
-		lexer.Match('/')
-		lexer.Match(TokenTypes_ID)
+		lexer.SPorHT()
+		if _, ParseException = lexer.Match('/'); ParseException != nil {
+			return nil, ParseException
+		}
+		lexer.SPorHT()
+		if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+			return nil, ParseException
+		}
 		token = lexer.GetNextToken()
 		accept.SetContentSubType(token.GetTokenValue())
 		lexer.SPorHT()
-		this.ParametersParser.Parse(accept)
+		if ParseException = this.ParametersParser.Parse(accept); ParseException != nil {
+			return nil, ParseException
+		}
 		acceptList.PushBack(accept)
 
 	}
-- 
2.43.0


From 0480edea9086b551647e62ca7516d747b922de69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:40 +0000
Subject: [PATCH 25/57] fix: parser: Alert-Info, Call-Info and Error-Info

---
 sip/parser/AlertInfoParser.go | 24 ++++++++++++++++++------
 sip/parser/CallInfoParser.go  | 32 ++++++++++++++++++++++++--------
 sip/parser/ErrorInfoParser.go | 24 ++++++++++++++++++------
 3 files changed, 60 insertions(+), 20 deletions(-)

diff --git a/sip/parser/AlertInfoParser.go b/sip/parser/AlertInfoParser.go
index 59550d3..65b01d5 100644
--- a/sip/parser/AlertInfoParser.go
+++ b/sip/parser/AlertInfoParser.go
@@ -50,20 +50,26 @@ func (this *AlertInfoParser) Parse() (sh header.Header, ParseException error) {
 	var uri address.URI
 
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_ALERT_INFO)
+	if ParseException = this.HeaderName(TokenTypes_ALERT_INFO); ParseException != nil {
+		return nil, ParseException
+	}
 
 	for ch, _ = lexer.LookAheadK(0); ch != '\n'; ch, _ = lexer.LookAheadK(0) {
 		alertInfo := header.NewAlertInfo()
 		alertInfo.SetHeaderName(core.SIPHeaderNames_ALERT_INFO)
 
 		lexer.SPorHT()
-		lexer.Match('<')
+		if _, ParseException = lexer.Match('<'); ParseException != nil {
+			return nil, ParseException
+		}
 		urlParser := NewURLParserFromLexer(lexer)
 		if uri, ParseException = urlParser.UriReference(); ParseException != nil {
 			return nil, ParseException
 		}
 		alertInfo.SetAlertInfo(uri)
-		lexer.Match('>')
+		if _, ParseException = lexer.Match('>'); ParseException != nil {
+			return nil, ParseException
+		}
 		lexer.SPorHT()
 
 		if ParseException = this.ParametersParser.Parse(alertInfo); ParseException != nil {
@@ -72,17 +78,23 @@ func (this *AlertInfoParser) Parse() (sh header.Header, ParseException error) {
 		alertInfoList.PushBack(alertInfo)
 
 		for ch, _ = lexer.LookAheadK(0); ch == ','; ch, _ = lexer.LookAheadK(0) {
-			lexer.Match(',')
+			if _, ParseException = lexer.Match(','); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
 			alertInfo = header.NewAlertInfo()
 			lexer.SPorHT()
-			lexer.Match('<')
+			if _, ParseException = lexer.Match('<'); ParseException != nil {
+				return nil, ParseException
+			}
 			urlParser = NewURLParserFromLexer(lexer)
 			if uri, ParseException = urlParser.UriReference(); ParseException != nil {
 				return nil, ParseException
 			}
 			alertInfo.SetAlertInfo(uri)
-			lexer.Match('>')
+			if _, ParseException = lexer.Match('>'); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
 
 			if ParseException = this.ParametersParser.Parse(alertInfo); ParseException != nil {
diff --git a/sip/parser/CallInfoParser.go b/sip/parser/CallInfoParser.go
index a798f87..68412e2 100644
--- a/sip/parser/CallInfoParser.go
+++ b/sip/parser/CallInfoParser.go
@@ -42,42 +42,58 @@ func (this *CallInfoParser) Parse() (sh header.Header, ParseException error) {
 	var uri address.URI
 
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_CALL_INFO)
+	if ParseException = this.HeaderName(TokenTypes_CALL_INFO); ParseException != nil {
+		return nil, ParseException
+	}
 
 	for ch, _ = lexer.LookAheadK(0); ch != '\n'; ch, _ = lexer.LookAheadK(0) {
 		callInfo := header.NewCallInfo()
 		callInfo.SetHeaderName(core.SIPHeaderNames_CALL_INFO)
 
 		lexer.SPorHT()
-		lexer.Match('<')
+		if _, ParseException = lexer.Match('<'); ParseException != nil {
+			return nil, ParseException
+		}
 		urlParser := NewURLParserFromLexer(lexer)
 		if uri, ParseException = urlParser.UriReference(); ParseException != nil {
 			return nil, ParseException
 		}
 		callInfo.SetInfo(uri)
-		lexer.Match('>')
+		if _, ParseException = lexer.Match('>'); ParseException != nil {
+			return nil, ParseException
+		}
 		lexer.SPorHT()
 
-		this.ParametersParser.Parse(callInfo)
+		if ParseException = this.ParametersParser.Parse(callInfo); ParseException != nil {
+			return nil, ParseException
+		}
 		callInfoList.PushBack(callInfo)
 
 		for ch, _ = lexer.LookAheadK(0); ch == ','; ch, _ = lexer.LookAheadK(0) {
-			lexer.Match(',')
+			if _, ParseException = lexer.Match(','); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
 
 			callInfo = header.NewCallInfo()
 
 			lexer.SPorHT()
-			lexer.Match('<')
+			if _, ParseException = lexer.Match('<'); ParseException != nil {
+				return nil, ParseException
+			}
 			urlParser = NewURLParserFromLexer(lexer)
 			if uri, ParseException = urlParser.UriReference(); ParseException != nil {
 				return nil, ParseException
 			}
 			callInfo.SetInfo(uri)
-			lexer.Match('>')
+			if _, ParseException = lexer.Match('>'); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
 
-			this.ParametersParser.Parse(callInfo)
+			if ParseException = this.ParametersParser.Parse(callInfo); ParseException != nil {
+				return nil, ParseException
+			}
 			callInfoList.PushBack(callInfo)
 		}
 	}
diff --git a/sip/parser/ErrorInfoParser.go b/sip/parser/ErrorInfoParser.go
index 12350e0..18c3b9b 100644
--- a/sip/parser/ErrorInfoParser.go
+++ b/sip/parser/ErrorInfoParser.go
@@ -44,20 +44,26 @@ func (this *ErrorInfoParser) Parse() (sh header.Header, ParseException error) {
 	var uri address.URI
 
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_ERROR_INFO)
+	if ParseException = this.HeaderName(TokenTypes_ERROR_INFO); ParseException != nil {
+		return nil, ParseException
+	}
 
 	for ch, _ = lexer.LookAheadK(0); ch != '\n'; ch, _ = lexer.LookAheadK(0) {
 		errorInfo := header.NewErrorInfo()
 		errorInfo.SetHeaderName(core.SIPHeaderNames_ERROR_INFO)
 
 		lexer.SPorHT()
-		lexer.Match('<')
+		if _, ParseException = lexer.Match('<'); ParseException != nil {
+			return nil, ParseException
+		}
 		urlParser := NewURLParserFromLexer(lexer)
 		if uri, ParseException = urlParser.UriReference(); ParseException != nil {
 			return nil, ParseException
 		}
 		errorInfo.SetErrorInfo(uri)
-		lexer.Match('>')
+		if _, ParseException = lexer.Match('>'); ParseException != nil {
+			return nil, ParseException
+		}
 		lexer.SPorHT()
 
 		if ParseException = this.ParametersParser.Parse(errorInfo); ParseException != nil {
@@ -66,19 +72,25 @@ func (this *ErrorInfoParser) Parse() (sh header.Header, ParseException error) {
 		errorInfoList.PushBack(errorInfo)
 
 		for ch, _ = lexer.LookAheadK(0); ch == ','; ch, _ = lexer.LookAheadK(0) {
-			lexer.Match(',')
+			if _, ParseException = lexer.Match(','); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
 
 			errorInfo = header.NewErrorInfo()
 
 			lexer.SPorHT()
-			lexer.Match('<')
+			if _, ParseException = lexer.Match('<'); ParseException != nil {
+				return nil, ParseException
+			}
 			urlParser = NewURLParserFromLexer(lexer)
 			if uri, ParseException = urlParser.UriReference(); ParseException != nil {
 				return nil, ParseException
 			}
 			errorInfo.SetErrorInfo(uri)
-			lexer.Match('>')
+			if _, ParseException = lexer.Match('>'); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
 
 			if ParseException = this.ParametersParser.Parse(errorInfo); ParseException != nil {
-- 
2.43.0


From 63c400111f230ab32ef5c10cb7fb8b46b9190090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:40 +0000
Subject: [PATCH 26/57] fix: parser: start lines and CSeq

---
 sip/parser/CSeqParser.go        | 11 ++++++-----
 sip/parser/RequestLineParser.go |  4 +++-
 sip/parser/SIPParser.go         |  4 +++-
 sip/parser/StatusLineParser.go  |  7 +++++++
 4 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/sip/parser/CSeqParser.go b/sip/parser/CSeqParser.go
index 8f3c5fa..2d44d6e 100644
--- a/sip/parser/CSeqParser.go
+++ b/sip/parser/CSeqParser.go
@@ -29,10 +29,9 @@ func NewCSeqParserFromLexer(lexer core.Lexer) *CSeqParser {
 
 func (this *CSeqParser) Parse() (sh header.Header, ParseException error) {
 	lexer := this.GetLexer()
-	lexer.Match(TokenTypes_CSEQ)
-	lexer.SPorHT()
-	lexer.Match(':')
-	lexer.SPorHT()
+	if ParseException = this.HeaderName(TokenTypes_CSEQ); ParseException != nil {
+		return nil, ParseException
+	}
 
 	var number int
 	var method string
@@ -45,7 +44,9 @@ func (this *CSeqParser) Parse() (sh header.Header, ParseException error) {
 	}
 	//c.SetMethod(m);
 	lexer.SPorHT()
-	lexer.Match('\n')
+	if _, ParseException = lexer.Match('\n'); ParseException != nil {
+		return nil, ParseException
+	}
 
 	c := header.NewCSeq(number, method)
 
diff --git a/sip/parser/RequestLineParser.go b/sip/parser/RequestLineParser.go
index ce3b8bd..ed1c3f0 100644
--- a/sip/parser/RequestLineParser.go
+++ b/sip/parser/RequestLineParser.go
@@ -52,7 +52,9 @@ func (this *RequestLineParser) Parse() (rl *header.RequestLine, ParseException e
 	}
 	retval.SetSipVersion(v)
 	lexer.SPorHT()
-	lexer.Match('\n')
+	if _, ParseException = lexer.Match('\n'); ParseException != nil {
+		return nil, ParseException
+	}
 
 	return retval, nil
 }
diff --git a/sip/parser/SIPParser.go b/sip/parser/SIPParser.go
index 145ab94..1065caf 100644
--- a/sip/parser/SIPParser.go
+++ b/sip/parser/SIPParser.go
@@ -152,7 +152,9 @@ func (this *SIPParser) SipVersion() (s string, ParseException error) {
 	if tok.GetTokenValue() != "SIP" {
 		return "", this.CreateParseException("Expecting SIP")
 	}
-	this.GetLexer().Match('/')
+	if _, ParseException = this.GetLexer().Match('/'); ParseException != nil {
+		return "", ParseException
+	}
 	if tok, ParseException = this.GetLexer().Match(TokenTypes_ID); ParseException != nil {
 		return "", this.CreateParseException("Expecting SIP/2.0")
 	}
diff --git a/sip/parser/StatusLineParser.go b/sip/parser/StatusLineParser.go
index 3b8ecdc..9766d7a 100644
--- a/sip/parser/StatusLineParser.go
+++ b/sip/parser/StatusLineParser.go
@@ -44,6 +44,9 @@ func (this *StatusLineParser) Parse() (sl *header.StatusLine, ParseException err
 		return nil, ParseException
 	}
 	retval.SetSipVersion(version)
+	if ch, err := lexer.LookAheadK(0); err != nil || (ch != ' ' && ch != '\t') {
+		return nil, this.CreateParseException("Expecting a blank after the version")
+	}
 	lexer.SPorHT()
 
 	var scode int
@@ -51,6 +54,10 @@ func (this *StatusLineParser) Parse() (sl *header.StatusLine, ParseException err
 		return nil, ParseException
 	}
 	retval.SetStatusCode(scode)
+	// the code ends where the phrase begins
+	if ch, err := lexer.LookAheadK(0); err == nil && ch != ' ' && ch != '\t' && ch != '\r' && ch != '\n' {
+		return nil, this.CreateParseException("Bad status code")
+	}
 	lexer.SPorHT()
 	rp := this.ReasonPhrase()
 	retval.SetReasonPhrase(rp)
-- 
2.43.0


From 8c547f5f352c81970757f0a13d5e1e75accc34b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:40 +0000
Subject: [PATCH 27/57] fix: parser: Timestamp, Retry-After and
 Subscription-State

---
 sip/parser/RetryAfterParser.go        | 39 ++++++++++++-----
 sip/parser/SubscriptionStateParser.go | 58 +++++++++++++++++++-------
 sip/parser/TimeStampParser.go         | 60 ++++++++++++---------------
 3 files changed, 100 insertions(+), 57 deletions(-)

diff --git a/sip/parser/RetryAfterParser.go b/sip/parser/RetryAfterParser.go
index e865ef4..3cad638 100644
--- a/sip/parser/RetryAfterParser.go
+++ b/sip/parser/RetryAfterParser.go
@@ -38,42 +38,61 @@ func (this *RetryAfterParser) Parse() (sh header.Header, ParseException error) {
 
 	var ch byte
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_RETRY_AFTER)
+	if ParseException = this.HeaderName(TokenTypes_RETRY_AFTER); ParseException != nil {
+		return nil, ParseException
+	}
 
 	// mandatory delatseconds:
 	var ds int
 	if ds, ParseException = lexer.Number(); ParseException != nil {
 		return nil, ParseException
 	}
-	retryAfter.SetRetryAfter(ds)
+	if ParseException = retryAfter.SetRetryAfter(ds); ParseException != nil {
+		return nil, ParseException
+	}
 
 	lexer.SPorHT()
 	if ch, _ = lexer.LookAheadK(0); ch == '(' {
-		comment, _ := lexer.Comment()
+		var comment string
+		if comment, ParseException = lexer.Comment(); ParseException != nil {
+			return nil, ParseException
+		}
 		retryAfter.SetComment(comment)
 	}
 	lexer.SPorHT()
 
 	for ch, _ = lexer.LookAheadK(0); ch == ';'; ch, _ = lexer.LookAheadK(0) {
-		lexer.Match(';')
+		if _, ParseException = lexer.Match(';'); ParseException != nil {
+			return nil, ParseException
+		}
 		lexer.SPorHT()
-		lexer.Match(TokenTypes_ID)
+		if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+			return nil, ParseException
+		}
 		token := lexer.GetNextToken()
 		value := token.GetTokenValue()
+		lexer.SPorHT()
 		if value == "duration" {
-			lexer.Match('=')
+			if _, ParseException = lexer.Match('='); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
 
 			var duration int
 			if duration, ParseException = lexer.Number(); ParseException != nil {
 				return nil, ParseException
 			}
-			retryAfter.SetDuration(duration)
+			if ParseException = retryAfter.SetDuration(duration); ParseException != nil {
+				return nil, ParseException
+			}
 		} else {
+			if _, ParseException = lexer.Match('='); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
-			lexer.Match('=')
-			lexer.SPorHT()
-			lexer.Match(TokenTypes_ID)
+			if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+				return nil, ParseException
+			}
 			secondToken := lexer.GetNextToken()
 			secondValue := secondToken.GetTokenValue()
 			retryAfter.SetParameter(value, secondValue)
diff --git a/sip/parser/SubscriptionStateParser.go b/sip/parser/SubscriptionStateParser.go
index 02848ee..4c2f902 100644
--- a/sip/parser/SubscriptionStateParser.go
+++ b/sip/parser/SubscriptionStateParser.go
@@ -40,32 +40,50 @@ func (this *SubscriptionStateParser) Parse() (sh header.Header, ParseException e
 
 	var ch byte
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_SUBSCRIPTION_STATE)
+	if ParseException = this.HeaderName(TokenTypes_SUBSCRIPTION_STATE); ParseException != nil {
+		return nil, ParseException
+	}
 
 	subscriptionState.SetHeaderName(core.SIPHeaderNames_SUBSCRIPTION_STATE)
 
 	// State:
-	lexer.Match(TokenTypes_ID)
+	if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+		return nil, ParseException
+	}
 	token := lexer.GetNextToken()
 	subscriptionState.SetState(token.GetTokenValue())
+	lexer.SPorHT()
 
 	for ch, _ = lexer.LookAheadK(0); ch == ';'; ch, _ = lexer.LookAheadK(0) {
-		lexer.Match(';')
+		if _, ParseException = lexer.Match(';'); ParseException != nil {
+			return nil, ParseException
+		}
 		lexer.SPorHT()
-		lexer.Match(TokenTypes_ID)
+		if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+			return nil, ParseException
+		}
 		token = lexer.GetNextToken()
 		value := token.GetTokenValue()
+		lexer.SPorHT()
 		if strings.ToLower(value) == "reason" {
-			lexer.Match('=')
+			if _, ParseException = lexer.Match('='); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
-			lexer.Match(TokenTypes_ID)
+			if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+				return nil, ParseException
+			}
 			token = lexer.GetNextToken()
 			value = token.GetTokenValue()
 			subscriptionState.SetReasonCode(value)
 		} else if strings.ToLower(value) == "expires" {
-			lexer.Match('=')
+			if _, ParseException = lexer.Match('='); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
-			lexer.Match(TokenTypes_ID)
+			if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+				return nil, ParseException
+			}
 			token = lexer.GetNextToken()
 			value = token.GetTokenValue()
 
@@ -73,11 +91,17 @@ func (this *SubscriptionStateParser) Parse() (sh header.Header, ParseException e
 			if expires, ParseException = strconv.Atoi(value); ParseException != nil {
 				return nil, ParseException
 			}
-			subscriptionState.SetExpires(expires)
+			if ParseException = subscriptionState.SetExpires(expires); ParseException != nil {
+				return nil, ParseException
+			}
 		} else if strings.ToLower(value) == "retry-after" {
-			lexer.Match('=')
+			if _, ParseException = lexer.Match('='); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
-			lexer.Match(TokenTypes_ID)
+			if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+				return nil, ParseException
+			}
 			token = lexer.GetNextToken()
 			value = token.GetTokenValue()
 
@@ -85,11 +109,17 @@ func (this *SubscriptionStateParser) Parse() (sh header.Header, ParseException e
 			if retryAfter, ParseException = strconv.Atoi(value); ParseException != nil {
 				return nil, ParseException
 			}
-			subscriptionState.SetRetryAfter(retryAfter)
+			if ParseException = subscriptionState.SetRetryAfter(retryAfter); ParseException != nil {
+				return nil, ParseException
+			}
 		} else {
-			lexer.Match('=')
+			if _, ParseException = lexer.Match('='); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
-			lexer.Match(TokenTypes_ID)
+			if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+				return nil, ParseException
+			}
 			secondToken := lexer.GetNextToken()
 			secondValue := secondToken.GetTokenValue()
 			subscriptionState.SetParameter(value, secondValue)
diff --git a/sip/parser/TimeStampParser.go b/sip/parser/TimeStampParser.go
index d0a505c..02570f3 100644
--- a/sip/parser/TimeStampParser.go
+++ b/sip/parser/TimeStampParser.go
@@ -4,6 +4,7 @@ import (
 	"github.com/use-go/gosips/core"
 	"github.com/use-go/gosips/sip/header"
 	"strconv"
+	"strings"
 )
 
 /** SIPParser for TimeStamp header.
@@ -38,54 +39,47 @@ func (this *TimeStampParser) Parse() (sh header.Header, ParseException error) {
 	timeStamp := header.NewTimeStamp()
 
 	var ch byte
-	var firstNumber, secondNumber int
+	var ts float32
 
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_TIMESTAMP)
+	if ParseException = this.HeaderName(TokenTypes_TIMESTAMP); ParseException != nil {
+		return nil, ParseException
+	}
 
 	timeStamp.SetHeaderName(core.SIPHeaderNames_TIMESTAMP)
 	lexer.SPorHT()
 
-	if firstNumber, ParseException = lexer.Number(); ParseException != nil {
+	if ts, ParseException = this.decimal(); ParseException != nil {
 		return nil, ParseException
 	}
-
-	var ts float64
-	if ch, _ = lexer.LookAheadK(0); ch == '.' {
-		lexer.Match('.')
-
-		if secondNumber, ParseException = lexer.Number(); ParseException != nil {
-			return nil, ParseException
-		}
-
-		s := strconv.Itoa(firstNumber) + "." + strconv.Itoa(secondNumber)
-		ts, _ = strconv.ParseFloat(s, 32)
-	} else {
-		ts = float64(firstNumber)
+	if ParseException = timeStamp.SetTimeStamp(ts); ParseException != nil {
+		return nil, ParseException
 	}
 
-	timeStamp.SetTimeStamp(float32(ts))
-
 	lexer.SPorHT()
-	if ch, _ = lexer.LookAheadK(0); ch != '\n' {
-		if firstNumber, ParseException = lexer.Number(); ParseException != nil {
+	if ch, ParseException = lexer.LookAheadK(0); ParseException != nil {
+		return nil, ParseException
+	}
+	if ch != '\n' {
+		if ts, ParseException = this.decimal(); ParseException != nil {
 			return nil, ParseException
 		}
-
-		if ch, _ = lexer.LookAheadK(0); ch == '.' {
-			lexer.Match('.')
-			if secondNumber, ParseException = lexer.Number(); ParseException != nil {
-				return nil, ParseException
-			}
-
-			s := strconv.Itoa(firstNumber) + "." + strconv.Itoa(secondNumber)
-			ts, _ = strconv.ParseFloat(s, 32)
-		} else {
-			ts = float64(firstNumber)
+		if ParseException = timeStamp.SetDelay(ts); ParseException != nil {
+			return nil, ParseException
 		}
-
-		timeStamp.SetDelay(float32(ts))
 	}
 
 	return timeStamp, nil
 }
+
+// decimal parses digits with an optional fraction. The digits are converted
+// as they stand: leading zeros of the fraction count.
+func (this *TimeStampParser) decimal() (f float32, ParseException error) {
+	number := this.GetLexer().GetNextId()
+	digits := strings.Replace(number, ".", "", 1)
+	if digits == "" || number[0] == '.' || strings.Trim(digits, "0123456789") != "" {
+		return 0, this.CreateParseException("number expected")
+	}
+	v, ParseException := strconv.ParseFloat(number, 32)
+	return float32(v), ParseException
+}
-- 
2.43.0


From 3ea2d46fe2e5ed92c192ab0bb1fdc9a26c7763d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:40 +0000
Subject: [PATCH 28/57] fix: parser: Server, User-Agent and Warning

---
 sip/parser/ServerParser.go    | 28 +++++++---------------------
 sip/parser/UserAgentParser.go | 28 +++++++---------------------
 sip/parser/WarningParser.go   | 28 +++++++++++++++++++++-------
 3 files changed, 35 insertions(+), 49 deletions(-)

diff --git a/sip/parser/ServerParser.go b/sip/parser/ServerParser.go
index 911d84d..2b3e634 100644
--- a/sip/parser/ServerParser.go
+++ b/sip/parser/ServerParser.go
@@ -38,32 +38,18 @@ func NewServerParserFromLexer(lexer core.Lexer) *ServerParser {
 func (this *ServerParser) Parse() (sh header.Header, ParseException error) {
 	server := header.NewServer()
 
-	var ch byte
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_SERVER)
-	if ch, _ = lexer.LookAheadK(0); ch == '\n' {
+	if ParseException = this.HeaderName(TokenTypes_SERVER); ParseException != nil {
+		return nil, ParseException
+	}
+	value := strings.TrimSpace(lexer.GetRest())
+	if value == "" {
 		return nil, errors.New("empty header")
 	}
 
 	//  mandatory token: product[/product-version] | (comment)
-	for ch, ParseException = lexer.LookAheadK(0); ch != '\n' && ParseException == nil; ch, ParseException = lexer.LookAheadK(0) {
-		if ch == '(' {
-			comment, _ := lexer.Comment()
-			server.AddProductToken("(" + comment + ")")
-		} else {
-			var tok string
-			tok, ParseException = lexer.GetString('/')
-			if ParseException != nil {
-				tok = lexer.GetRest()
-				server.AddProductToken(tok)
-				break
-			} else {
-				if tok[len(tok)-1] == '\n' {
-					tok = strings.TrimSpace(tok)
-				}
-				server.AddProductToken(tok)
-			}
-		}
+	for _, tok := range strings.Split(value, "/") {
+		server.AddProductToken(tok)
 	}
 
 	return server, nil
diff --git a/sip/parser/UserAgentParser.go b/sip/parser/UserAgentParser.go
index ff56946..653c391 100644
--- a/sip/parser/UserAgentParser.go
+++ b/sip/parser/UserAgentParser.go
@@ -39,32 +39,18 @@ func NewUserAgentParserFromLexer(lexer core.Lexer) *UserAgentParser {
 func (this *UserAgentParser) Parse() (sh header.Header, ParseException error) {
 	userAgent := header.NewUserAgent()
 
-	var ch byte
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_USER_AGENT)
-	if ch, _ = lexer.LookAheadK(0); ch == '\n' {
+	if ParseException = this.HeaderName(TokenTypes_USER_AGENT); ParseException != nil {
+		return nil, ParseException
+	}
+	value := strings.TrimSpace(lexer.GetRest())
+	if value == "" {
 		return nil, errors.New("empty header")
 	}
 
 	//  mandatory token: product[/product-version] | (comment)
-	for ch, ParseException = lexer.LookAheadK(0); ch != '\n' && ParseException == nil; ch, ParseException = lexer.LookAheadK(0) {
-		if ch == '(' {
-			comment, _ := lexer.Comment()
-			userAgent.AddProductToken("(" + comment + ")")
-		} else {
-			var tok string
-			tok, ParseException = lexer.GetString('/')
-			if ParseException != nil {
-				tok = lexer.GetRest()
-				userAgent.AddProductToken(strings.TrimSpace(tok))
-				break
-			} else {
-				if tok[len(tok)-1] == '\n' {
-					tok = strings.TrimSpace(tok)
-				}
-				userAgent.AddProductToken(tok)
-			}
-		}
+	for _, tok := range strings.Split(value, "/") {
+		userAgent.AddProductToken(tok)
 	}
 
 	return userAgent, nil
diff --git a/sip/parser/WarningParser.go b/sip/parser/WarningParser.go
index 9326331..c064426 100644
--- a/sip/parser/WarningParser.go
+++ b/sip/parser/WarningParser.go
@@ -39,14 +39,18 @@ func (this *WarningParser) Parse() (sh header.Header, ParseException error) {
 
 	var ch byte
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_WARNING)
+	if ParseException = this.HeaderName(TokenTypes_WARNING); ParseException != nil {
+		return nil, ParseException
+	}
 
 	for ch, _ = lexer.LookAheadK(0); ch != '\n'; ch, _ = lexer.LookAheadK(0) {
 		warning := header.NewWarning()
 		warning.SetHeaderName(core.SIPHeaderNames_WARNING)
 
 		// Parsing the 3digits code
-		lexer.Match(TokenTypes_ID)
+		if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+			return nil, ParseException
+		}
 		token := lexer.GetNextToken()
 
 		var code int
@@ -60,7 +64,9 @@ func (this *WarningParser) Parse() (sh header.Header, ParseException error) {
 		lexer.SPorHT()
 
 		// Parsing the agent
-		lexer.Match(TokenTypes_ID)
+		if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+			return nil, ParseException
+		}
 		token = lexer.GetNextToken()
 		warning.SetAgent(token.GetTokenValue())
 		lexer.SPorHT()
@@ -76,24 +82,32 @@ func (this *WarningParser) Parse() (sh header.Header, ParseException error) {
 		warningList.PushBack(warning)
 
 		for ch, _ = lexer.LookAheadK(0); ch == ','; ch, _ = lexer.LookAheadK(0) {
-			lexer.Match(',')
+			if _, ParseException = lexer.Match(','); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
 
 			warning = header.NewWarning()
 
 			// Parsing the 3digits code
-			lexer.Match(TokenTypes_ID)
+			if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+				return nil, ParseException
+			}
 			tok := lexer.GetNextToken()
 
 			if code, ParseException = strconv.Atoi(tok.GetTokenValue()); ParseException != nil {
 				return nil, ParseException
 			}
-			warning.SetCode(code)
+			if ParseException = warning.SetCode(code); ParseException != nil {
+				return nil, ParseException
+			}
 
 			lexer.SPorHT()
 
 			// Parsing the agent
-			lexer.Match(TokenTypes_ID)
+			if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+				return nil, ParseException
+			}
 			tok = lexer.GetNextToken()
 			warning.SetAgent(tok.GetTokenValue())
 			lexer.SPorHT()
-- 
2.43.0


From ee3ae9f16fdc7d13cc1f73bed12a391bf31abcf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:40 +0000
Subject: [PATCH 29/57] fix: parser: malformed header values are rejected and
 complete ones kept

---
 sip/parser/AllowEventsParser.go        | 20 +++++++++++----
 sip/parser/AllowParser.go              | 20 +++++++++++----
 sip/parser/CallIdParser.go             | 12 +++++----
 sip/parser/ContentDispositionParser.go | 12 ++++++---
 sip/parser/ContentEncodingParser.go    | 16 +++++++++---
 sip/parser/ContentLanguageParser.go    | 16 +++++++++---
 sip/parser/ContentLengthParser.go      |  8 ++++--
 sip/parser/ContentTypeParser.go        | 21 ++++++++++++----
 sip/parser/DateParser.go               | 10 +++-----
 sip/parser/EventParser.go              | 12 ++++++---
 sip/parser/ExpiresParser.go            | 18 ++++++++------
 sip/parser/InReplyToParser.go          | 34 ++++++++++++++++++++------
 sip/parser/MaxForwardsParser.go        |  8 ++++--
 sip/parser/MimeVersionParser.go        | 20 +++++++++++----
 sip/parser/MinExpiresParser.go         | 12 ++++++---
 sip/parser/OrganizationParser.go       |  4 ++-
 sip/parser/PriorityParser.go           | 12 ++++++---
 sip/parser/ProxyRequireParser.go       | 16 +++++++++---
 sip/parser/RAckParser.go               | 24 +++++++++++++-----
 sip/parser/RSeqParser.go               | 12 ++++++---
 sip/parser/ReasonParser.go             | 12 ++++++---
 sip/parser/RequireParser.go            | 16 +++++++++---
 sip/parser/SubjectParser.go            |  4 ++-
 sip/parser/SupportedParser.go          | 16 +++++++++---
 sip/parser/UnsupportedParser.go        | 16 +++++++++---
 25 files changed, 271 insertions(+), 100 deletions(-)

diff --git a/sip/parser/AllowEventsParser.go b/sip/parser/AllowEventsParser.go
index f22555b..1b577db 100644
--- a/sip/parser/AllowEventsParser.go
+++ b/sip/parser/AllowEventsParser.go
@@ -40,13 +40,17 @@ func (this *AllowEventsParser) Parse() (sh header.Header, ParseException error)
 	var ch byte
 
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_ALLOW_EVENTS)
+	if ParseException = this.HeaderName(TokenTypes_ALLOW_EVENTS); ParseException != nil {
+		return nil, ParseException
+	}
 
 	allowEvents := header.NewAllowEvents()
 	allowEvents.SetHeaderName(core.SIPHeaderNames_ALLOW_EVENTS)
 
 	lexer.SPorHT()
-	lexer.Match(TokenTypes_ID)
+	if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+		return nil, ParseException
+	}
 	token := lexer.GetNextToken()
 	allowEvents.SetEventType(token.GetTokenValue())
 
@@ -54,11 +58,15 @@ func (this *AllowEventsParser) Parse() (sh header.Header, ParseException error)
 	lexer.SPorHT()
 
 	for ch, _ = lexer.LookAheadK(0); ch == ','; ch, _ = lexer.LookAheadK(0) {
-		lexer.Match(',')
+		if _, ParseException = lexer.Match(','); ParseException != nil {
+			return nil, ParseException
+		}
 		lexer.SPorHT()
 
 		allowEvents = header.NewAllowEvents()
-		lexer.Match(TokenTypes_ID)
+		if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+			return nil, ParseException
+		}
 		token = lexer.GetNextToken()
 		allowEvents.SetEventType(token.GetTokenValue())
 
@@ -66,7 +74,9 @@ func (this *AllowEventsParser) Parse() (sh header.Header, ParseException error)
 		lexer.SPorHT()
 	}
 	lexer.SPorHT()
-	lexer.Match('\n')
+	if _, ParseException = lexer.Match('\n'); ParseException != nil {
+		return nil, ParseException
+	}
 
 	return allowEventsList, nil
 }
diff --git a/sip/parser/AllowParser.go b/sip/parser/AllowParser.go
index 395c987..fa62e32 100644
--- a/sip/parser/AllowParser.go
+++ b/sip/parser/AllowParser.go
@@ -40,24 +40,32 @@ func (this *AllowParser) Parse() (sh header.Header, ParseException error) {
 	var ch byte
 
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_ALLOW)
+	if ParseException = this.HeaderName(TokenTypes_ALLOW); ParseException != nil {
+		return nil, ParseException
+	}
 
 	allow := header.NewAllow()
 	allow.SetHeaderName(core.SIPHeaderNames_ALLOW)
 
 	lexer.SPorHT()
-	lexer.Match(TokenTypes_ID)
+	if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+		return nil, ParseException
+	}
 	token := lexer.GetNextToken()
 	allow.SetMethod(token.GetTokenValue())
 
 	allowList.PushBack(allow)
 	lexer.SPorHT()
 	for ch, _ = lexer.LookAheadK(0); ch == ','; ch, _ = lexer.LookAheadK(0) {
-		lexer.Match(',')
+		if _, ParseException = lexer.Match(','); ParseException != nil {
+			return nil, ParseException
+		}
 		lexer.SPorHT()
 
 		allow = header.NewAllow()
-		lexer.Match(TokenTypes_ID)
+		if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+			return nil, ParseException
+		}
 		token = lexer.GetNextToken()
 		allow.SetMethod(token.GetTokenValue())
 
@@ -65,7 +73,9 @@ func (this *AllowParser) Parse() (sh header.Header, ParseException error) {
 		lexer.SPorHT()
 	}
 	lexer.SPorHT()
-	lexer.Match('\n')
+	if _, ParseException = lexer.Match('\n'); ParseException != nil {
+		return nil, ParseException
+	}
 
 	return allowList, nil
 }
diff --git a/sip/parser/CallIdParser.go b/sip/parser/CallIdParser.go
index afc7375..7ef4817 100644
--- a/sip/parser/CallIdParser.go
+++ b/sip/parser/CallIdParser.go
@@ -44,13 +44,15 @@ func NewCallIDParserFromLexer(lexer core.Lexer) *CallIDParser {
  */
 func (this *CallIDParser) Parse() (sh header.Header, ParseException error) {
 	lexer := this.GetLexer()
-	lexer.Match(TokenTypes_CALL_ID)
-	lexer.SPorHT()
-	lexer.Match(':')
-	lexer.SPorHT()
+	if ParseException = this.HeaderName(TokenTypes_CALL_ID); ParseException != nil {
+		return nil, ParseException
+	}
 	rest := strings.TrimSpace(lexer.GetRest())
 
 	callID, ParseException := header.NewCallID(rest)
+	if ParseException != nil {
+		return nil, ParseException
+	}
 
-	return callID, ParseException
+	return callID, nil
 }
diff --git a/sip/parser/ContentDispositionParser.go b/sip/parser/ContentDispositionParser.go
index 018d5a0..68e25fc 100644
--- a/sip/parser/ContentDispositionParser.go
+++ b/sip/parser/ContentDispositionParser.go
@@ -36,13 +36,17 @@ func NewContentDispositionParserFromLexer(lexer core.Lexer) *ContentDispositionP
  */
 func (this *ContentDispositionParser) Parse() (sh header.Header, ParseException error) {
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_CONTENT_DISPOSITION)
+	if ParseException = this.HeaderName(TokenTypes_CONTENT_DISPOSITION); ParseException != nil {
+		return nil, ParseException
+	}
 
 	cd := header.NewContentDisposition()
 	cd.SetHeaderName(core.SIPHeaderNames_CONTENT_DISPOSITION)
 
 	lexer.SPorHT()
-	lexer.Match(TokenTypes_ID)
+	if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+		return nil, ParseException
+	}
 
 	token := lexer.GetNextToken()
 	cd.SetDispositionType(token.GetTokenValue())
@@ -52,7 +56,9 @@ func (this *ContentDispositionParser) Parse() (sh header.Header, ParseException
 	}
 
 	lexer.SPorHT()
-	lexer.Match('\n')
+	if _, ParseException = lexer.Match('\n'); ParseException != nil {
+		return nil, ParseException
+	}
 
 	return cd, nil
 }
diff --git a/sip/parser/ContentEncodingParser.go b/sip/parser/ContentEncodingParser.go
index 558b19f..09489a9 100644
--- a/sip/parser/ContentEncodingParser.go
+++ b/sip/parser/ContentEncodingParser.go
@@ -39,14 +39,18 @@ func (this *ContentEncodingParser) Parse() (sh header.Header, ParseException err
 
 	var ch byte
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_CONTENT_ENCODING)
+	if ParseException = this.HeaderName(TokenTypes_CONTENT_ENCODING); ParseException != nil {
+		return nil, ParseException
+	}
 
 	for ch, _ = lexer.LookAheadK(0); ch != '\n'; ch, _ = lexer.LookAheadK(0) {
 		cl := header.NewContentEncoding()
 		cl.SetHeaderName(core.SIPHeaderNames_CONTENT_ENCODING)
 
 		lexer.SPorHT()
-		lexer.Match(TokenTypes_ID)
+		if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+			return nil, ParseException
+		}
 
 		token := lexer.GetNextToken()
 		cl.SetEncoding(token.GetTokenValue())
@@ -56,9 +60,13 @@ func (this *ContentEncodingParser) Parse() (sh header.Header, ParseException err
 
 		for ch, _ = lexer.LookAheadK(0); ch == ','; ch, _ = lexer.LookAheadK(0) {
 			cl = header.NewContentEncoding()
-			lexer.Match(',')
+			if _, ParseException = lexer.Match(','); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
-			lexer.Match(TokenTypes_ID)
+			if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
 			token = lexer.GetNextToken()
 			cl.SetEncoding(token.GetTokenValue())
diff --git a/sip/parser/ContentLanguageParser.go b/sip/parser/ContentLanguageParser.go
index aa526aa..7d92952 100644
--- a/sip/parser/ContentLanguageParser.go
+++ b/sip/parser/ContentLanguageParser.go
@@ -39,14 +39,18 @@ func (this *ContentLanguageParser) Parse() (sh header.Header, ParseException err
 
 	var ch byte
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_CONTENT_LANGUAGE)
+	if ParseException = this.HeaderName(TokenTypes_CONTENT_LANGUAGE); ParseException != nil {
+		return nil, ParseException
+	}
 
 	for ch, _ = lexer.LookAheadK(0); ch != '\n'; ch, _ = lexer.LookAheadK(0) {
 		cl := header.NewContentLanguage()
 		cl.SetHeaderName(core.SIPHeaderNames_CONTENT_LANGUAGE)
 
 		lexer.SPorHT()
-		lexer.Match(TokenTypes_ID)
+		if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+			return nil, ParseException
+		}
 
 		token := lexer.GetNextToken()
 		cl.SetContentLanguage(token.GetTokenValue())
@@ -56,9 +60,13 @@ func (this *ContentLanguageParser) Parse() (sh header.Header, ParseException err
 
 		for ch, _ = lexer.LookAheadK(0); ch == ','; ch, _ = lexer.LookAheadK(0) {
 			cl = header.NewContentLanguage()
-			lexer.Match(',')
+			if _, ParseException = lexer.Match(','); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
-			lexer.Match(TokenTypes_ID)
+			if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
 			token = lexer.GetNextToken()
 			cl.SetContentLanguage(token.GetTokenValue())
diff --git a/sip/parser/ContentLengthParser.go b/sip/parser/ContentLengthParser.go
index eb1ffbf..6207c1f 100644
--- a/sip/parser/ContentLengthParser.go
+++ b/sip/parser/ContentLengthParser.go
@@ -27,7 +27,9 @@ func (this *ContentLengthParser) Parse() (sh header.Header, ParseException error
 	var number int
 	contentLength := header.NewContentLength()
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_CONTENT_LENGTH)
+	if ParseException = this.HeaderName(TokenTypes_CONTENT_LENGTH); ParseException != nil {
+		return nil, ParseException
+	}
 	if number, ParseException = lexer.Number(); ParseException != nil {
 		return nil, ParseException
 	}
@@ -35,6 +37,8 @@ func (this *ContentLengthParser) Parse() (sh header.Header, ParseException error
 		return nil, ParseException
 	}
 	lexer.SPorHT()
-	lexer.Match('\n')
+	if _, ParseException = lexer.Match('\n'); ParseException != nil {
+		return nil, ParseException
+	}
 	return contentLength, nil
 }
diff --git a/sip/parser/ContentTypeParser.go b/sip/parser/ContentTypeParser.go
index d298c81..93e0800 100644
--- a/sip/parser/ContentTypeParser.go
+++ b/sip/parser/ContentTypeParser.go
@@ -27,24 +27,35 @@ func (this *ContentTypeParser) Parse() (sh header.Header, ParseException error)
 	contentType := header.NewContentType()
 
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_CONTENT_TYPE)
+	if ParseException = this.HeaderName(TokenTypes_CONTENT_TYPE); ParseException != nil {
+		return nil, ParseException
+	}
 
 	// The type:
-	lexer.Match(TokenTypes_ID)
+	if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+		return nil, ParseException
+	}
 	t := lexer.GetNextToken()
 	lexer.SPorHT()
 	contentType.SetContentType(t.GetTokenValue())
 
 	// The sub-type:
-	lexer.Match('/')
-	lexer.Match(TokenTypes_ID)
+	if _, ParseException = lexer.Match('/'); ParseException != nil {
+		return nil, ParseException
+	}
+	lexer.SPorHT()
+	if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+		return nil, ParseException
+	}
 	subType := lexer.GetNextToken()
 	lexer.SPorHT()
 	contentType.SetContentSubType(subType.GetTokenValue())
 	if ParseException = this.ParametersParser.Parse(contentType); ParseException != nil {
 		return nil, ParseException
 	}
-	lexer.Match('\n')
+	if _, ParseException = lexer.Match('\n'); ParseException != nil {
+		return nil, ParseException
+	}
 
 	return contentType, nil
 }
diff --git a/sip/parser/DateParser.go b/sip/parser/DateParser.go
index e216dc6..b841d61 100644
--- a/sip/parser/DateParser.go
+++ b/sip/parser/DateParser.go
@@ -1,7 +1,6 @@
 package parser
 
 import (
-	"errors"
 	"github.com/use-go/gosips/core"
 	"github.com/use-go/gosips/sip/header"
 	"strings"
@@ -36,13 +35,12 @@ func NewDateParserFromLexer(lexer core.Lexer) *DateParser {
  */
 func (this *DateParser) Parse() (sh header.Header, ParseException error) {
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_DATE)
-	var t time.Time
-	if t, ParseException = time.Parse(time.RFC1123, strings.TrimSpace(lexer.GetRest())); ParseException != nil {
+	if ParseException = this.HeaderName(TokenTypes_DATE); ParseException != nil {
 		return nil, ParseException
 	}
-	if t.Location().String() != "GMT" {
-		return nil, errors.New("GMT is only acceptable time zone")
+	var t time.Time
+	if t, ParseException = time.Parse("Mon, 02 Jan 2006 15:04:05 GMT", strings.TrimSpace(lexer.GetRest())); ParseException != nil {
+		return nil, ParseException
 	}
 	retval := header.NewDate()
 	retval.SetDate(&t)
diff --git a/sip/parser/EventParser.go b/sip/parser/EventParser.go
index e3a5375..16c2ee6 100644
--- a/sip/parser/EventParser.go
+++ b/sip/parser/EventParser.go
@@ -36,11 +36,15 @@ func NewEventParserFromLexer(lexer core.Lexer) *EventParser {
  */
 func (this *EventParser) Parse() (sh header.Header, ParseException error) {
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_EVENT)
+	if ParseException = this.HeaderName(TokenTypes_EVENT); ParseException != nil {
+		return nil, ParseException
+	}
 	lexer.SPorHT()
 
 	event := header.NewEvent()
-	lexer.Match(TokenTypes_ID)
+	if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+		return nil, ParseException
+	}
 	token := lexer.GetNextToken()
 	value := token.GetTokenValue()
 
@@ -50,7 +54,9 @@ func (this *EventParser) Parse() (sh header.Header, ParseException error) {
 	}
 
 	lexer.SPorHT()
-	lexer.Match('\n')
+	if _, ParseException = lexer.Match('\n'); ParseException != nil {
+		return nil, ParseException
+	}
 
 	return event, nil
 }
diff --git a/sip/parser/ExpiresParser.go b/sip/parser/ExpiresParser.go
index a2b8443..54591f3 100644
--- a/sip/parser/ExpiresParser.go
+++ b/sip/parser/ExpiresParser.go
@@ -37,16 +37,20 @@ func (this *ExpiresParser) Parse() (sh header.Header, ParseException error) {
 	expires := header.NewExpires()
 
 	lexer := this.GetLexer()
-	lexer.Match(TokenTypes_EXPIRES)
-	lexer.SPorHT()
-	lexer.Match(':')
-	lexer.SPorHT()
+	if ParseException = this.HeaderName(TokenTypes_EXPIRES); ParseException != nil {
+		return nil, ParseException
+	}
 	nextId := lexer.GetNextId()
-	lexer.Match('\n')
+	lexer.SPorHT()
+	if _, ParseException = lexer.Match('\n'); ParseException != nil {
+		return nil, ParseException
+	}
 	var delta int64
 	if delta, ParseException = strconv.ParseInt(nextId, 10, 32); ParseException != nil {
 		return nil, ParseException
 	}
-	expires.SetExpires(int(delta))
-	return expires, ParseException
+	if ParseException = expires.SetExpires(int(delta)); ParseException != nil {
+		return nil, ParseException
+	}
+	return expires, nil
 }
diff --git a/sip/parser/InReplyToParser.go b/sip/parser/InReplyToParser.go
index e28bba5..47fb199 100644
--- a/sip/parser/InReplyToParser.go
+++ b/sip/parser/InReplyToParser.go
@@ -38,17 +38,25 @@ func (this *InReplyToParser) Parse() (sh header.Header, ParseException error) {
 
 	var ch byte
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_IN_REPLY_TO)
+	if ParseException = this.HeaderName(TokenTypes_IN_REPLY_TO); ParseException != nil {
+		return nil, ParseException
+	}
 
 	for ch, _ = lexer.LookAheadK(0); ch != '\n'; ch, _ = lexer.LookAheadK(0) {
 		inReplyTo := header.NewInReplyTo()
 		inReplyTo.SetHeaderName(core.SIPHeaderNames_IN_REPLY_TO)
 
-		lexer.Match(TokenTypes_ID)
+		if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+			return nil, ParseException
+		}
 		token := lexer.GetNextToken()
 		if ch, _ = lexer.LookAheadK(0); ch == '@' {
-			lexer.Match('@')
-			lexer.Match(TokenTypes_ID)
+			if _, ParseException = lexer.Match('@'); ParseException != nil {
+				return nil, ParseException
+			}
+			if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+				return nil, ParseException
+			}
 			secToken := lexer.GetNextToken()
 			inReplyTo.SetCallId(token.GetTokenValue() + "@" +
 				secToken.GetTokenValue())
@@ -61,16 +69,24 @@ func (this *InReplyToParser) Parse() (sh header.Header, ParseException error) {
 		inReplyToList.PushBack(inReplyTo)
 
 		for ch, _ = lexer.LookAheadK(0); ch == ','; ch, _ = lexer.LookAheadK(0) {
-			lexer.Match(',')
+			if _, ParseException = lexer.Match(','); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
 
 			inReplyTo = header.NewInReplyTo()
 
-			lexer.Match(TokenTypes_ID)
+			if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+				return nil, ParseException
+			}
 			token = lexer.GetNextToken()
 			if ch, _ = lexer.LookAheadK(0); ch == '@' {
-				lexer.Match('@')
-				lexer.Match(TokenTypes_ID)
+				if _, ParseException = lexer.Match('@'); ParseException != nil {
+					return nil, ParseException
+				}
+				if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+					return nil, ParseException
+				}
 				secToken := lexer.GetNextToken()
 				inReplyTo.SetCallId(token.GetTokenValue() + "@" +
 					secToken.GetTokenValue())
@@ -78,6 +94,8 @@ func (this *InReplyToParser) Parse() (sh header.Header, ParseException error) {
 				inReplyTo.SetCallId(token.GetTokenValue())
 			}
 
+			lexer.SPorHT()
+
 			inReplyToList.PushBack(inReplyTo)
 		}
 	}
diff --git a/sip/parser/MaxForwardsParser.go b/sip/parser/MaxForwardsParser.go
index ed4bd0b..42d8d5b 100644
--- a/sip/parser/MaxForwardsParser.go
+++ b/sip/parser/MaxForwardsParser.go
@@ -28,7 +28,9 @@ func (this *MaxForwardsParser) super(hname string) {
 
 func (this *MaxForwardsParser) Parse() (sh header.Header, ParseException error) {
 	contentLength := header.NewMaxForwards()
-	this.HeaderName(TokenTypes_MAX_FORWARDS)
+	if ParseException = this.HeaderName(TokenTypes_MAX_FORWARDS); ParseException != nil {
+		return nil, ParseException
+	}
 	lexer := this.GetLexer()
 
 	var number int
@@ -39,7 +41,9 @@ func (this *MaxForwardsParser) Parse() (sh header.Header, ParseException error)
 		return nil, ParseException
 	}
 	lexer.SPorHT()
-	lexer.Match('\n')
+	if _, ParseException = lexer.Match('\n'); ParseException != nil {
+		return nil, ParseException
+	}
 
 	return contentLength, nil
 }
diff --git a/sip/parser/MimeVersionParser.go b/sip/parser/MimeVersionParser.go
index 6b74bfb..5d0e7f6 100644
--- a/sip/parser/MimeVersionParser.go
+++ b/sip/parser/MimeVersionParser.go
@@ -37,7 +37,9 @@ func (this *MimeVersionParser) Parse() (sh header.Header, ParseException error)
 	mimeVersion := header.NewMimeVersion()
 
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_MIME_VERSION)
+	if ParseException = this.HeaderName(TokenTypes_MIME_VERSION); ParseException != nil {
+		return nil, ParseException
+	}
 
 	mimeVersion.SetHeaderName(core.SIPHeaderNames_MIME_VERSION)
 
@@ -45,16 +47,24 @@ func (this *MimeVersionParser) Parse() (sh header.Header, ParseException error)
 	if majorVersion, ParseException = lexer.Number(); ParseException != nil {
 		return nil, ParseException
 	}
-	mimeVersion.SetMajorVersion(majorVersion)
-	lexer.Match('.')
+	if ParseException = mimeVersion.SetMajorVersion(majorVersion); ParseException != nil {
+		return nil, ParseException
+	}
+	if _, ParseException = lexer.Match('.'); ParseException != nil {
+		return nil, ParseException
+	}
 	if minorVersion, ParseException = lexer.Number(); ParseException != nil {
 		return nil, ParseException
 	}
-	mimeVersion.SetMinorVersion(minorVersion)
+	if ParseException = mimeVersion.SetMinorVersion(minorVersion); ParseException != nil {
+		return nil, ParseException
+	}
 
 	lexer.SPorHT()
 
-	lexer.Match('\n')
+	if _, ParseException = lexer.Match('\n'); ParseException != nil {
+		return nil, ParseException
+	}
 
 	return mimeVersion, nil
 }
diff --git a/sip/parser/MinExpiresParser.go b/sip/parser/MinExpiresParser.go
index 05c5f54..396c0a9 100644
--- a/sip/parser/MinExpiresParser.go
+++ b/sip/parser/MinExpiresParser.go
@@ -37,7 +37,9 @@ func (this *MinExpiresParser) Parse() (sh header.Header, ParseException error) {
 	minExpires := header.NewMinExpires()
 
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_MIN_EXPIRES)
+	if ParseException = this.HeaderName(TokenTypes_MIN_EXPIRES); ParseException != nil {
+		return nil, ParseException
+	}
 
 	minExpires.SetHeaderName(core.SIPHeaderNames_MIN_EXPIRES)
 
@@ -46,11 +48,15 @@ func (this *MinExpiresParser) Parse() (sh header.Header, ParseException error) {
 		return nil, ParseException
 	}
 
-	minExpires.SetExpires(number)
+	if ParseException = minExpires.SetExpires(number); ParseException != nil {
+		return nil, ParseException
+	}
 
 	lexer.SPorHT()
 
-	lexer.Match('\n')
+	if _, ParseException = lexer.Match('\n'); ParseException != nil {
+		return nil, ParseException
+	}
 
 	return minExpires, nil
 }
diff --git a/sip/parser/OrganizationParser.go b/sip/parser/OrganizationParser.go
index bf0403b..0cda863 100644
--- a/sip/parser/OrganizationParser.go
+++ b/sip/parser/OrganizationParser.go
@@ -38,7 +38,9 @@ func (this *OrganizationParser) Parse() (sh header.Header, ParseException error)
 	organization := header.NewOrganization()
 
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_ORGANIZATION)
+	if ParseException = this.HeaderName(TokenTypes_ORGANIZATION); ParseException != nil {
+		return nil, ParseException
+	}
 
 	organization.SetHeaderName(core.SIPHeaderNames_ORGANIZATION)
 
diff --git a/sip/parser/PriorityParser.go b/sip/parser/PriorityParser.go
index 9c672be..56ec415 100644
--- a/sip/parser/PriorityParser.go
+++ b/sip/parser/PriorityParser.go
@@ -37,18 +37,24 @@ func (this *PriorityParser) Parse() (sh header.Header, ParseException error) {
 	priority := header.NewPriority()
 
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_PRIORITY)
+	if ParseException = this.HeaderName(TokenTypes_PRIORITY); ParseException != nil {
+		return nil, ParseException
+	}
 
 	priority.SetHeaderName(core.SIPHeaderNames_PRIORITY)
 
 	lexer.SPorHT()
-	lexer.Match(TokenTypes_ID)
+	if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+		return nil, ParseException
+	}
 	token := lexer.GetNextToken()
 
 	priority.SetPriority(token.GetTokenValue())
 
 	lexer.SPorHT()
-	lexer.Match('\n')
+	if _, ParseException = lexer.Match('\n'); ParseException != nil {
+		return nil, ParseException
+	}
 
 	return priority, nil
 }
diff --git a/sip/parser/ProxyRequireParser.go b/sip/parser/ProxyRequireParser.go
index 69fbaec..43e83bc 100644
--- a/sip/parser/ProxyRequireParser.go
+++ b/sip/parser/ProxyRequireParser.go
@@ -38,14 +38,18 @@ func (this *ProxyRequireParser) Parse() (sh header.Header, ParseException error)
 
 	var ch byte
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_PROXY_REQUIRE)
+	if ParseException = this.HeaderName(TokenTypes_PROXY_REQUIRE); ParseException != nil {
+		return nil, ParseException
+	}
 
 	for ch, _ = lexer.LookAheadK(0); ch != '\n'; ch, _ = lexer.LookAheadK(0) {
 		r := header.NewProxyRequire()
 		r.SetHeaderName(core.SIPHeaderNames_PROXY_REQUIRE)
 
 		// Parsing the option tag
-		lexer.Match(TokenTypes_ID)
+		if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+			return nil, ParseException
+		}
 		token := lexer.GetNextToken()
 		r.SetOptionTag(token.GetTokenValue())
 		lexer.SPorHT()
@@ -53,13 +57,17 @@ func (this *ProxyRequireParser) Parse() (sh header.Header, ParseException error)
 		proxyRequireList.PushBack(r)
 
 		for ch, _ = lexer.LookAheadK(0); ch == ','; ch, _ = lexer.LookAheadK(0) {
-			lexer.Match(',')
+			if _, ParseException = lexer.Match(','); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
 
 			r = header.NewProxyRequire()
 
 			// Parsing the option tag
-			lexer.Match(TokenTypes_ID)
+			if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+				return nil, ParseException
+			}
 			token = lexer.GetNextToken()
 			r.SetOptionTag(token.GetTokenValue())
 			lexer.SPorHT()
diff --git a/sip/parser/RAckParser.go b/sip/parser/RAckParser.go
index b0adc17..478006a 100644
--- a/sip/parser/RAckParser.go
+++ b/sip/parser/RAckParser.go
@@ -37,7 +37,9 @@ func (this *RAckParser) Parse() (sh header.Header, ParseException error) {
 	rack := header.NewRAck()
 
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_RACK)
+	if ParseException = this.HeaderName(TokenTypes_RACK); ParseException != nil {
+		return nil, ParseException
+	}
 
 	rack.SetHeaderName(core.SIPHeaderNames_RACK)
 
@@ -45,19 +47,29 @@ func (this *RAckParser) Parse() (sh header.Header, ParseException error) {
 	if number, ParseException = lexer.Number(); ParseException != nil {
 		return nil, ParseException
 	}
-	rack.SetRSeqNumber(number)
+	if ParseException = rack.SetRSeqNumber(number); ParseException != nil {
+		return nil, ParseException
+	}
 	lexer.SPorHT()
 	if number, ParseException = lexer.Number(); ParseException != nil {
 		return nil, ParseException
 	}
-	rack.SetCSeqNumber(number)
+	if ParseException = rack.SetCSeqNumber(number); ParseException != nil {
+		return nil, ParseException
+	}
 	lexer.SPorHT()
-	lexer.Match(TokenTypes_ID)
+	if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+		return nil, ParseException
+	}
 	token := lexer.GetNextToken()
-	rack.SetMethod(token.GetTokenValue())
+	if ParseException = rack.SetMethod(token.GetTokenValue()); ParseException != nil {
+		return nil, ParseException
+	}
 
 	lexer.SPorHT()
-	lexer.Match('\n')
+	if _, ParseException = lexer.Match('\n'); ParseException != nil {
+		return nil, ParseException
+	}
 
 	return rack, nil
 }
diff --git a/sip/parser/RSeqParser.go b/sip/parser/RSeqParser.go
index ae7f2aa..ecd4888 100644
--- a/sip/parser/RSeqParser.go
+++ b/sip/parser/RSeqParser.go
@@ -37,7 +37,9 @@ func (this *RSeqParser) Parse() (sh header.Header, ParseException error) {
 	rseq := header.NewRSeq()
 
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_RSEQ)
+	if ParseException = this.HeaderName(TokenTypes_RSEQ); ParseException != nil {
+		return nil, ParseException
+	}
 
 	rseq.SetHeaderName(core.SIPHeaderNames_RSEQ)
 
@@ -45,10 +47,14 @@ func (this *RSeqParser) Parse() (sh header.Header, ParseException error) {
 	if number, ParseException = lexer.Number(); ParseException != nil {
 		return nil, ParseException
 	}
-	rseq.SetSequenceNumber(number)
+	if ParseException = rseq.SetSequenceNumber(number); ParseException != nil {
+		return nil, ParseException
+	}
 
 	lexer.SPorHT()
-	lexer.Match('\n')
+	if _, ParseException = lexer.Match('\n'); ParseException != nil {
+		return nil, ParseException
+	}
 
 	return rseq, nil
 }
diff --git a/sip/parser/ReasonParser.go b/sip/parser/ReasonParser.go
index c6ae3d8..6bd2be9 100644
--- a/sip/parser/ReasonParser.go
+++ b/sip/parser/ReasonParser.go
@@ -38,11 +38,15 @@ func (this *ReasonParser) Parse() (sh header.Header, ParseException error) {
 
 	var ch byte
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_REASON)
+	if ParseException = this.HeaderName(TokenTypes_REASON); ParseException != nil {
+		return nil, ParseException
+	}
 	lexer.SPorHT()
 	for ch, _ = lexer.LookAheadK(0); ch != '\n'; ch, _ = lexer.LookAheadK(0) {
 		reason := header.NewReason()
-		lexer.Match(TokenTypes_ID)
+		if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+			return nil, ParseException
+		}
 		token := lexer.GetNextToken()
 		value := token.GetTokenValue()
 
@@ -52,7 +56,9 @@ func (this *ReasonParser) Parse() (sh header.Header, ParseException error) {
 		}
 		reasonList.PushBack(reason)
 		if ch, _ = lexer.LookAheadK(0); ch == ',' {
-			lexer.Match(',')
+			if _, ParseException = lexer.Match(','); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
 		} else {
 			lexer.SPorHT()
diff --git a/sip/parser/RequireParser.go b/sip/parser/RequireParser.go
index d740287..97a18c7 100644
--- a/sip/parser/RequireParser.go
+++ b/sip/parser/RequireParser.go
@@ -38,14 +38,18 @@ func (this *RequireParser) Parse() (sh header.Header, ParseException error) {
 
 	var ch byte
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_REQUIRE)
+	if ParseException = this.HeaderName(TokenTypes_REQUIRE); ParseException != nil {
+		return nil, ParseException
+	}
 
 	for ch, _ = lexer.LookAheadK(0); ch != '\n'; ch, _ = lexer.LookAheadK(0) {
 		r := header.NewRequire()
 		r.SetHeaderName(core.SIPHeaderNames_REQUIRE)
 
 		// Parsing the option tag
-		lexer.Match(TokenTypes_ID)
+		if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+			return nil, ParseException
+		}
 		token := lexer.GetNextToken()
 		r.SetOptionTag(token.GetTokenValue())
 		lexer.SPorHT()
@@ -53,13 +57,17 @@ func (this *RequireParser) Parse() (sh header.Header, ParseException error) {
 		requireList.PushBack(r)
 
 		for ch, _ = lexer.LookAheadK(0); ch == ','; ch, _ = lexer.LookAheadK(0) {
-			lexer.Match(',')
+			if _, ParseException = lexer.Match(','); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
 
 			r = header.NewRequire()
 
 			// Parsing the option tag
-			lexer.Match(TokenTypes_ID)
+			if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+				return nil, ParseException
+			}
 			token = lexer.GetNextToken()
 			r.SetOptionTag(token.GetTokenValue())
 			lexer.SPorHT()
diff --git a/sip/parser/SubjectParser.go b/sip/parser/SubjectParser.go
index b160f0f..aca0684 100644
--- a/sip/parser/SubjectParser.go
+++ b/sip/parser/SubjectParser.go
@@ -38,7 +38,9 @@ func (this *SubjectParser) Parse() (sh header.Header, ParseException error) {
 	subject := header.NewSubject()
 
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_SUBJECT)
+	if ParseException = this.HeaderName(TokenTypes_SUBJECT); ParseException != nil {
+		return nil, ParseException
+	}
 
 	lexer.SPorHT()
 
diff --git a/sip/parser/SupportedParser.go b/sip/parser/SupportedParser.go
index 893f2ab..e6e491b 100644
--- a/sip/parser/SupportedParser.go
+++ b/sip/parser/SupportedParser.go
@@ -38,7 +38,9 @@ func (this *SupportedParser) Parse() (sh header.Header, ParseException error) {
 
 	var ch byte
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_SUPPORTED)
+	if ParseException = this.HeaderName(TokenTypes_SUPPORTED); ParseException != nil {
+		return nil, ParseException
+	}
 
 	for ch, _ = lexer.LookAheadK(0); ch != '\n'; ch, _ = lexer.LookAheadK(0) {
 		lexer.SPorHT()
@@ -46,7 +48,9 @@ func (this *SupportedParser) Parse() (sh header.Header, ParseException error) {
 		supported.SetHeaderName(core.SIPHeaderNames_SUPPORTED)
 
 		// Parsing the option tag
-		lexer.Match(TokenTypes_ID)
+		if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+			return nil, ParseException
+		}
 		token := lexer.GetNextToken()
 		supported.SetOptionTag(token.GetTokenValue())
 		lexer.SPorHT()
@@ -54,13 +58,17 @@ func (this *SupportedParser) Parse() (sh header.Header, ParseException error) {
 		supportedList.PushBack(supported)
 
 		for ch, _ = lexer.LookAheadK(0); ch == ','; ch, _ = lexer.LookAheadK(0) {
-			lexer.Match(',')
+			if _, ParseException = lexer.Match(','); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
 
 			supported = header.NewSupported()
 
 			// Parsing the option tag
-			lexer.Match(TokenTypes_ID)
+			if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+				return nil, ParseException
+			}
 			token = lexer.GetNextToken()
 			supported.SetOptionTag(token.GetTokenValue())
 			lexer.SPorHT()
diff --git a/sip/parser/UnsupportedParser.go b/sip/parser/UnsupportedParser.go
index b5d2080..e49b8ca 100644
--- a/sip/parser/UnsupportedParser.go
+++ b/sip/parser/UnsupportedParser.go
@@ -38,7 +38,9 @@ func (this *UnsupportedParser) Parse() (sh header.Header, ParseException error)
 
 	var ch byte
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_UNSUPPORTED)
+	if ParseException = this.HeaderName(TokenTypes_UNSUPPORTED); ParseException != nil {
+		return nil, ParseException
+	}
 
 	for ch, _ = lexer.LookAheadK(0); ch != '\n'; ch, _ = lexer.LookAheadK(0) {
 		lexer.SPorHT()
@@ -46,7 +48,9 @@ func (this *UnsupportedParser) Parse() (sh header.Header, ParseException error)
 		unsupported.SetHeaderName(core.SIPHeaderNames_UNSUPPORTED)
 
 		// Parsing the option tag
-		lexer.Match(TokenTypes_ID)
+		if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+			return nil, ParseException
+		}
 		token := lexer.GetNextToken()
 		unsupported.SetOptionTag(token.GetTokenValue())
 		lexer.SPorHT()
@@ -54,13 +58,17 @@ func (this *UnsupportedParser) Parse() (sh header.Header, ParseException error)
 		unsupportedList.PushBack(unsupported)
 
 		for ch, _ = lexer.LookAheadK(0); ch == ','; ch, _ = lexer.LookAheadK(0) {
-			lexer.Match(',')
+			if _, ParseException = lexer.Match(','); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
 
 			unsupported = header.NewUnsupported()
 
 			// Parsing the option tag
-			lexer.Match(TokenTypes_ID)
+			if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+				return nil, ParseException
+			}
 			token = lexer.GetNextToken()
 			unsupported.SetOptionTag(token.GetTokenValue())
 			lexer.SPorHT()
-- 
2.43.0


From bcb613f262bccfc6185c54080f3420184f3c0fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:38 +0000
Subject: [PATCH 30/57] fix: message: misspelled reason phrases for 421 and 488

---
 sip/message/SIPResponse.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sip/message/SIPResponse.go b/sip/message/SIPResponse.go
index fd5f41a..0741480 100644
--- a/sip/message/SIPResponse.go
+++ b/sip/message/SIPResponse.go
@@ -116,7 +116,7 @@ func (this *SIPResponse) GetReasonPhraseFromInt(rc int) string {
 		retval = "Bad extension"
 
 	case EXTENSION_REQUIRED:
-		retval = "Etension Required"
+		retval = "Extension Required"
 
 	case INTERVAL_TOO_BRIEF:
 		retval = "Interval too brief"
@@ -143,7 +143,7 @@ func (this *SIPResponse) GetReasonPhraseFromInt(rc int) string {
 		retval = "Request Terminated"
 
 	case NOT_ACCEPTABLE_HERE:
-		retval = "Not Accpetable here"
+		retval = "Not Acceptable here"
 
 	case BAD_EVENT:
 		retval = "Bad Event"
-- 
2.43.0


From a725835c6bd855a9357c871073a144c6f530fc28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:57 +0000
Subject: [PATCH 31/57] fix: parser: a method called SIP is a method

---
 sip/parser/SIPParser.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sip/parser/SIPParser.go b/sip/parser/SIPParser.go
index 1065caf..c573c7e 100644
--- a/sip/parser/SIPParser.go
+++ b/sip/parser/SIPParser.go
@@ -186,6 +186,7 @@ func (this *SIPParser) Method() (s string, ParseException error) {
 		token.GetTokenType() == TokenTypes_CANCEL ||
 		token.GetTokenType() == TokenTypes_SUBSCRIBE ||
 		token.GetTokenType() == TokenTypes_NOTIFY ||
+		token.GetTokenType() == TokenTypes_SIP ||
 		token.GetTokenType() == TokenTypes_ID {
 		this.GetLexer().Consume()
 		return token.GetTokenValue(), nil
-- 
2.43.0


From ff6852e3251e0fa83174a2c01971634ebaa4791e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:13 +0000
Subject: [PATCH 32/57] fix: header: a failed SetMethods leaves the list as it
 was

---
 sip/header/AllowEventsList.go | 4 +++-
 sip/header/AllowList.go       | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/sip/header/AllowEventsList.go b/sip/header/AllowEventsList.go
index 18df735..e17fab7 100644
--- a/sip/header/AllowEventsList.go
+++ b/sip/header/AllowEventsList.go
@@ -59,6 +59,7 @@ func (this *AllowEventsList) GetMethods() *list.List {
  */
 
 func (this *AllowEventsList) SetMethods(methods *list.List) (ParseException error) {
+	added := NewAllowEventsList()
 	for e := methods.Front(); e != nil; e = e.Next() {
 		allowEvents := NewAllowEvents()
 		if str, ok := e.Value.(string); ok {
@@ -69,8 +70,9 @@ func (this *AllowEventsList) SetMethods(methods *list.List) (ParseException erro
 			return errors.New("ParseException: the eventType parameter is not string")
 		}
 
-		this.PushBack(allowEvents)
+		added.PushBack(allowEvents)
 	}
+	this.Concatenate(added, false)
 
 	return nil
 }
diff --git a/sip/header/AllowList.go b/sip/header/AllowList.go
index 753297b..f6b0415 100644
--- a/sip/header/AllowList.go
+++ b/sip/header/AllowList.go
@@ -60,6 +60,7 @@ func (this *AllowList) GetMethods() *list.List {
 
 func (this *AllowList) SetMethods(methods *list.List) (ParseException error) {
 
+	added := NewAllowList()
 	for e := methods.Front(); e != nil; e = e.Next() {
 		allow := NewAllow()
 		if str, ok := e.Value.(string); ok {
@@ -70,7 +71,8 @@ func (this *AllowList) SetMethods(methods *list.List) (ParseException error) {
 			return errors.New("ParseException: the method parameter is not string")
 		}
 
-		this.PushBack(allow)
+		added.PushBack(allow)
 	}
+	this.Concatenate(added, false)
 	return nil
 }
-- 
2.43.0


From 63670db8f8f7846f9b7bcdc1c7b150396861b13b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:02 +0000
Subject: [PATCH 33/57] fix: parser: any token is a method with every lexer

---
 sip/parser/SIPParser.go | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/sip/parser/SIPParser.go b/sip/parser/SIPParser.go
index c573c7e..e3e59d2 100644
--- a/sip/parser/SIPParser.go
+++ b/sip/parser/SIPParser.go
@@ -178,16 +178,8 @@ func (this *SIPParser) Method() (s string, ParseException error) {
 	}
 
 	token := tokens[0]
-	if token.GetTokenType() == TokenTypes_INVITE ||
-		token.GetTokenType() == TokenTypes_ACK ||
-		token.GetTokenType() == TokenTypes_OPTIONS ||
-		token.GetTokenType() == TokenTypes_BYE ||
-		token.GetTokenType() == TokenTypes_REGISTER ||
-		token.GetTokenType() == TokenTypes_CANCEL ||
-		token.GetTokenType() == TokenTypes_SUBSCRIBE ||
-		token.GetTokenType() == TokenTypes_NOTIFY ||
-		token.GetTokenType() == TokenTypes_SIP ||
-		token.GetTokenType() == TokenTypes_ID {
+	// any token is a method, also one that is a keyword of the lexer in use.
+	if token.GetTokenType() > TokenTypes_START && token.GetTokenType() < TokenTypes_END {
 		this.GetLexer().Consume()
 		return token.GetTokenValue(), nil
 	} else {
-- 
2.43.0


From 42d19e1c275a4ee44c3ed28f75d35545ce1e7f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:12 +0000
Subject: [PATCH 34/57] fix: message: GetMessageContent does not write to the
 message it reads

---
 sip/message/SIPMessage.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sip/message/SIPMessage.go b/sip/message/SIPMessage.go
index 27615f2..6986d38 100644
--- a/sip/message/SIPMessage.go
+++ b/sip/message/SIPMessage.go
@@ -1144,7 +1144,7 @@ func (this *SIPMessage) GetMessageContent() string {
 		// }
 		// } else this.messageContent =
 		// new String(messageContentBytes,header.SIPConstants_DEFAULT_ENCODING);
-		this.messageContent = string(this.messageContentBytes)
+		return string(this.messageContentBytes) // reading leaves the message as it is
 	}
 	return this.messageContent
 }
-- 
2.43.0


From 31affad73549a3fa7f08bf26ba61337ae6477f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:40 +0000
Subject: [PATCH 35/57] fix: core: reading a host's address does not write to
 the host

---
 core/Host.go | 21 ++++-----------------
 1 file changed, 4 insertions(+), 17 deletions(-)

diff --git a/core/Host.go b/core/Host.go
index 32a2c3e..f9611c5 100644
--- a/core/Host.go
+++ b/core/Host.go
@@ -23,8 +23,6 @@ type Host struct {
 	/** address field
 	 */
 	addressType int
-
-	inetAddress net.IP
 }
 
 /** Constructor given host name or IP address.
@@ -113,11 +111,8 @@ func (host *Host) GetIpAddress() string {
 
 	if host.addressType == HOSTNAME {
 		//try {
-		if host.inetAddress == nil {
-			host.inetAddress = net.ParseIP(host.hostname)
-		}
-		if host.inetAddress != nil {
-			rawIpAddress = host.inetAddress.String() //getHostAddress();
+		if inetAddress := net.ParseIP(host.hostname); inetAddress != nil {
+			rawIpAddress = inetAddress.String() //getHostAddress();
 		}
 		//} catch (UnknownHostException ex) {
 		//    dbgPrint("Could not resolve hostname " + ex);
@@ -133,7 +128,6 @@ func (host *Host) GetIpAddress() string {
  * @param h String to set
  */
 func (host *Host) SetHostName(hname string) {
-	host.inetAddress = nil
 	if host.isIPv6Address(hname) {
 		host.addressType = IPV6ADDRESS
 	} else {
@@ -149,7 +143,6 @@ func (host *Host) SetHostName(hname string) {
  *@param address is the address string to set.
  */
 func (host *Host) SetHostAddress(address string) {
-	host.inetAddress = nil
 	if host.isIPv6Address(address) {
 		host.addressType = IPV6ADDRESS
 	} else {
@@ -185,8 +178,7 @@ func (host *Host) IsIPAddress() bool {
 }
 
 /** Get the inet address from host host.
- * Caches the inet address returned from dns lookup to avoid
- * lookup delays.
+ * Nothing is kept in the host, so that it can be shared by readers.
  *
  *@throws UnkownHostexception when the host name cannot be resolved.
  */
@@ -194,12 +186,7 @@ func (host *Host) GetInetAddress() net.IP {
 	if host.hostname == "" {
 		return nil
 	}
-	if host.inetAddress != nil {
-		return host.inetAddress
-	}
-	host.inetAddress = net.ParseIP(strings.Trim(host.hostname, "[]"))
-	return host.inetAddress
-
+	return net.ParseIP(strings.Trim(host.hostname, "[]"))
 }
 
 //----- IPv6
-- 
2.43.0


From e62d0072288c4b8e978a5390144b156839cf5ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:48 +0000
Subject: [PATCH 36/57] fix: message: lists of Alert-Info and In-Reply-To are
 request headers too

---
 sip/message/SIPMessage.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sip/message/SIPMessage.go b/sip/message/SIPMessage.go
index 6986d38..a1ff9d6 100644
--- a/sip/message/SIPMessage.go
+++ b/sip/message/SIPMessage.go
@@ -77,9 +77,15 @@ func (this *SIPMessage) IsRequestHeader(sipHeader header.Header) bool {
 	if _, ok = sipHeader.(*header.AlertInfo); ok {
 		return true
 	}
+	if _, ok = sipHeader.(*header.AlertInfoList); ok {
+		return true
+	}
 	if _, ok = sipHeader.(*header.InReplyTo); ok {
 		return true
 	}
+	if _, ok = sipHeader.(*header.InReplyToList); ok {
+		return true
+	}
 	if _, ok = sipHeader.(*header.Authorization); ok {
 		return true
 	}
-- 
2.43.0


From 5dcb98420421af86f4c4c1b47f9526416d338151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:37 +0000
Subject: [PATCH 37/57] fix: rtp: an IPv4 address of 16 bytes is an IPv4
 address

---
 rtp/transmissioninfo.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rtp/transmissioninfo.go b/rtp/transmissioninfo.go
index c515ab0..82f0a4b 100644
--- a/rtp/transmissioninfo.go
+++ b/rtp/transmissioninfo.go
@@ -28,7 +28,7 @@ type TransmissionInfo struct {
 
 func NewTransmissionInfo(iplist []net.IP, rtpsock, rtcpsock int) *TransmissionInfo {
 	this := &TransmissionInfo{}
-	if len(iplist[0]) == 4 {
+	if iplist[0].To4() != nil {
 		this.protocol = IPv4UDPProto
 	} else {
 		this.protocol = IPv6UDPProto
-- 
2.43.0


From 0f65a5f2823d871920f3c23ed5c6ebf5c23eb3d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:07 +0000
Subject: [PATCH 38/57] fix: header: a header without address, URI or media
 range can be read and encoded

---
 sip/address/AddressImpl.go       |  3 +++
 sip/header/AcceptLanguageList.go | 10 ++++------
 sip/header/AlertInfoImpl.go      |  3 +++
 sip/header/CallInfoImpl.go       |  3 +++
 sip/header/ContactImpl.go        |  3 +++
 sip/header/ContentTypeImpl.go    |  9 +++++++++
 sip/header/ErrorInfoImpl.go      |  3 +++
 sip/header/RecordRouteImpl.go    |  3 +++
 sip/header/ReferToImpl.go        |  3 +++
 sip/header/ReplyToImpl.go        |  9 +++++++++
 sip/header/RouteImpl.go          |  3 +++
 11 files changed, 46 insertions(+), 6 deletions(-)

diff --git a/sip/address/AddressImpl.go b/sip/address/AddressImpl.go
index 0bbec30..a68cb6e 100644
--- a/sip/address/AddressImpl.go
+++ b/sip/address/AddressImpl.go
@@ -94,6 +94,9 @@ func (this *AddressImpl) GetUserAtHostPort() string {
 	if sipuri, ok := this.address.(*SipURIImpl); ok {
 		return sipuri.GetUserAtHostPort()
 	}
+	if this.address == nil {
+		return ""
+	}
 	return this.address.String()
 }
 
diff --git a/sip/header/AcceptLanguageList.go b/sip/header/AcceptLanguageList.go
index 863acf5..c6aa884 100644
--- a/sip/header/AcceptLanguageList.go
+++ b/sip/header/AcceptLanguageList.go
@@ -18,18 +18,16 @@ func NewAcceptLanguageList() *AcceptLanguageList {
 }
 
 func (this *AcceptLanguageList) GetFirst() Header {
-	retval := this.SIPHeaderList.Front().Value.(Header)
-	if retval != nil {
-		return retval
+	if e := this.SIPHeaderList.Front(); e != nil {
+		return e.Value.(Header)
 	} else {
 		return NewAcceptLanguage()
 	}
 }
 
 func (this *AcceptLanguageList) GetLast() Header {
-	retval := this.SIPHeaderList.Back().Value.(Header)
-	if retval != nil {
-		return retval
+	if e := this.SIPHeaderList.Back(); e != nil {
+		return e.Value.(Header)
 	} else {
 		return NewAcceptLanguage()
 	}
diff --git a/sip/header/AlertInfoImpl.go b/sip/header/AlertInfoImpl.go
index dbf11c9..56ec9c5 100644
--- a/sip/header/AlertInfoImpl.go
+++ b/sip/header/AlertInfoImpl.go
@@ -35,6 +35,9 @@ func (this *AlertInfo) String() string {
  * @return The value of the header in canonical encoding.
  */
 func (this *AlertInfo) EncodeBody() string {
+	if this.uri == nil {
+		return ""
+	}
 	var encoding bytes.Buffer
 	encoding.WriteString(core.SIPSeparatorNames_LESS_THAN)
 	encoding.WriteString(this.uri.String())
diff --git a/sip/header/CallInfoImpl.go b/sip/header/CallInfoImpl.go
index 15f65fc..087e35f 100644
--- a/sip/header/CallInfoImpl.go
+++ b/sip/header/CallInfoImpl.go
@@ -35,6 +35,9 @@ func (this *CallInfo) String() string {
  * @return String
  */
 func (this *CallInfo) EncodeBody() string {
+	if this.info == nil {
+		return ""
+	}
 	var encoding bytes.Buffer
 
 	encoding.WriteString(core.SIPSeparatorNames_LESS_THAN)
diff --git a/sip/header/ContactImpl.go b/sip/header/ContactImpl.go
index eec8bc4..5ce33ab 100644
--- a/sip/header/ContactImpl.go
+++ b/sip/header/ContactImpl.go
@@ -53,6 +53,9 @@ func (this *Contact) EncodeBody() string {
 		encoding.WriteString("*")
 		return encoding.String()
 	}
+	if this.addr == nil {
+		return ""
+	}
 	addr, _ := this.addr.(*address.AddressImpl)
 	// Bug report by Joao Paulo
 	if addr.GetAddressType() == address.NAME_ADDR {
diff --git a/sip/header/ContentTypeImpl.go b/sip/header/ContentTypeImpl.go
index 16d847f..92b13a1 100644
--- a/sip/header/ContentTypeImpl.go
+++ b/sip/header/ContentTypeImpl.go
@@ -74,6 +74,9 @@ func (this *ContentType) String() string {
  * @return String.
  */
 func (this *ContentType) EncodeBody() string {
+	if this.mediaRange == nil {
+		return ""
+	}
 	if this.HasParameters() {
 		return this.mediaRange.String() + core.SIPSeparatorNames_SEMICOLON + this.parameters.String()
 	} else {
@@ -92,6 +95,9 @@ func (this *ContentType) GetMediaRange() *MediaRange {
  * @return String.
  */
 func (this *ContentType) GetMediaType() string {
+	if this.mediaRange == nil {
+		return ""
+	}
 	return this.mediaRange.mtype
 }
 
@@ -99,6 +105,9 @@ func (this *ContentType) GetMediaType() string {
  * @return String.
  */
 func (this *ContentType) GetMediaSubType() string {
+	if this.mediaRange == nil {
+		return ""
+	}
 	return this.mediaRange.subtype
 }
 
diff --git a/sip/header/ErrorInfoImpl.go b/sip/header/ErrorInfoImpl.go
index 7eb9fd9..ae6b270 100644
--- a/sip/header/ErrorInfoImpl.go
+++ b/sip/header/ErrorInfoImpl.go
@@ -43,6 +43,9 @@ func (this *ErrorInfo) String() string {
  * @return String
  */
 func (this *ErrorInfo) EncodeBody() string {
+	if this.errorInfo == nil {
+		return ""
+	}
 	var encoding bytes.Buffer
 
 	encoding.WriteString(core.SIPSeparatorNames_LESS_THAN)
diff --git a/sip/header/RecordRouteImpl.go b/sip/header/RecordRouteImpl.go
index 46ad7f0..f8839ba 100644
--- a/sip/header/RecordRouteImpl.go
+++ b/sip/header/RecordRouteImpl.go
@@ -40,6 +40,9 @@ func (this *RecordRoute) String() string {
  *@return String containing the canonicaly encoded header.
  */
 func (this *RecordRoute) EncodeBody() string {
+	if this.addr == nil {
+		return ""
+	}
 	var encoding bytes.Buffer
 	addr, _ := this.addr.(*address.AddressImpl)
 	if addr.GetAddressType() == address.ADDRESS_SPEC {
diff --git a/sip/header/ReferToImpl.go b/sip/header/ReferToImpl.go
index 96eb280..7c30966 100644
--- a/sip/header/ReferToImpl.go
+++ b/sip/header/ReferToImpl.go
@@ -32,6 +32,9 @@ func (this *ReferTo) String() string {
  * @return String
  */
 func (this *ReferTo) EncodeBody() string {
+	if this.addr == nil {
+		return ""
+	}
 	var encoding bytes.Buffer
 	addr, _ := this.addr.(*address.AddressImpl)
 	if addr.GetAddressType() == address.ADDRESS_SPEC {
diff --git a/sip/header/ReplyToImpl.go b/sip/header/ReplyToImpl.go
index 3ccd2ce..8ee2b3b 100644
--- a/sip/header/ReplyToImpl.go
+++ b/sip/header/ReplyToImpl.go
@@ -43,6 +43,9 @@ func (this *ReplyTo) String() string {
  * @return String
  */
 func (this *ReplyTo) EncodeBody() string {
+	if this.addr == nil {
+		return ""
+	}
 	var encoding bytes.Buffer
 	addr, _ := this.addr.(*address.AddressImpl)
 	if addr.GetAddressType() == address.ADDRESS_SPEC {
@@ -65,6 +68,9 @@ func (this *ReplyTo) EncodeBody() string {
  * @return HostPort
  */
 func (this *ReplyTo) GetHostPort() *core.HostPort {
+	if this.addr == nil {
+		return nil
+	}
 	addr, _ := this.addr.(*address.AddressImpl)
 	hp, _ := addr.GetHostPort()
 	return hp
@@ -75,5 +81,8 @@ func (this *ReplyTo) GetHostPort() *core.HostPort {
  * @return String
  */
 func (this *ReplyTo) GetDisplayName() string {
+	if this.addr == nil {
+		return ""
+	}
 	return this.addr.GetDisplayName()
 }
diff --git a/sip/header/RouteImpl.go b/sip/header/RouteImpl.go
index 343413d..d4137f4 100644
--- a/sip/header/RouteImpl.go
+++ b/sip/header/RouteImpl.go
@@ -73,6 +73,9 @@ func (this *Route) String() string {
  *@return a canonical encoding of the header.
  */
 func (this *Route) EncodeBody() string {
+	if this.addr == nil {
+		return ""
+	}
 	var encoding bytes.Buffer
 	encoding.WriteString(this.addr.String())
 	if this.parameters != nil && this.parameters.Len() > 0 {
-- 
2.43.0


From 0e96411d6b7439f7c4750ac77e690f032c16463b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:56 +0000
Subject: [PATCH 39/57] fix: core: LogMessageToFile can write to the file it
 opens, and creates it

---
 core/LogWriter.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/core/LogWriter.go b/core/LogWriter.go
index 06ef7ad..fab5eff 100644
--- a/core/LogWriter.go
+++ b/core/LogWriter.go
@@ -56,16 +56,15 @@ func (logWriter *LogWriter) SetLogFileName(name string) {
 }
 
 func (logWriter *LogWriter) LogMessageToFile(message, logFileName string) {
-	var err error
-	logWriter.printWriter, err = os.OpenFile(logFileName, os.O_APPEND, 0)
+	file, err := os.OpenFile(logFileName, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644)
 	if err != nil {
 		println("Can't open file in LogMessageToFile")
 		return
 	}
-	defer logWriter.printWriter.Close()
+	defer file.Close()
 
-	logWriter.printWriter.WriteString(" ---------------------------------------------- ")
-	logWriter.printWriter.WriteString(message)
+	file.WriteString(" ---------------------------------------------- ")
+	file.WriteString(message)
 }
 
 func (logWriter *LogWriter) checkLogFile() {
@@ -77,7 +76,7 @@ func (logWriter *LogWriter) checkLogFile() {
 	}
 
 	var err error
-	logWriter.printWriter, err = os.OpenFile(logWriter.logFileName, os.O_APPEND, 0)
+	logWriter.printWriter, err = os.OpenFile(logWriter.logFileName, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644)
 	if err != nil {
 		println("Can't open file in checkLogFile")
 		return
-- 
2.43.0


From 9fdc8324dd9578bdfaddd73cdcf960e1f514e661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:19 +0000
Subject: [PATCH 40/57] fix: parser: an absolute URI may hold '='

---
 sip/parser/URLParser.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sip/parser/URLParser.go b/sip/parser/URLParser.go
index 5730dc9..9b705cd 100644
--- a/sip/parser/URLParser.go
+++ b/sip/parser/URLParser.go
@@ -56,6 +56,7 @@ func (this *URLParser) IsReservedNoSlash(next byte) bool {
 		next == ':' ||
 		next == '@' ||
 		next == '&' ||
+		next == '=' ||
 		next == '+' ||
 		next == '$' ||
 		next == ','
@@ -134,6 +135,7 @@ func (this *URLParser) IsReserved(next byte) bool {
 		next == ':' ||
 		next == '@' ||
 		next == '&' ||
+		next == '=' ||
 		next == '+' ||
 		next == '$' ||
 		next == ','
-- 
2.43.0


From 9bef8894ef276fa318373685fc720caf3713a956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:44 +0000
Subject: [PATCH 41/57] fix: parser: an absolute URI may hold an IPv6 address

---
 sip/parser/URLParser.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/sip/parser/URLParser.go b/sip/parser/URLParser.go
index 9b705cd..8856705 100644
--- a/sip/parser/URLParser.go
+++ b/sip/parser/URLParser.go
@@ -228,6 +228,22 @@ func (this *URLParser) isTerminator(la byte) bool {
 	return this.addrSpec && la == ',' || this.bare && (la == ';' || la == '?')
 }
 
+// ipv6Reference returns the IPv6 address in brackets that comes next, or
+// consumes nothing if there is none.
+func (this *URLParser) ipv6Reference() string {
+	if la, _ := this.GetLexer().LookAheadK(0); la != '[' {
+		return ""
+	}
+	start := this.GetLexer().MarkInputPosition()
+	ref, err := core.NewHostNameParserFromLexer(this.GetLexer()).Ipv6Reference()
+	this.GetLexer().SelectLexer("sip_urlLexer")
+	if err != nil {
+		this.GetLexer().RewindInputPosition(start)
+		return ""
+	}
+	return ref
+}
+
 func (this *URLParser) UricString() string {
 	var retval bytes.Buffer
 	for {
@@ -235,6 +251,9 @@ func (this *URLParser) UricString() string {
 			break
 		}
 		next := this.Uric()
+		if next == "" {
+			next = this.ipv6Reference()
+		}
 		if next == "" {
 			break
 		}
-- 
2.43.0


From 24a9713e7cd50c6733868d5cce329c716fa2a88b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:39 +0000
Subject: [PATCH 42/57] fix: parser: Warning takes a host with a port or an
 IPv6 address as agent

---
 sip/parser/WarningParser.go | 36 ++++++++++++++++++++++++++++++------
 1 file changed, 30 insertions(+), 6 deletions(-)

diff --git a/sip/parser/WarningParser.go b/sip/parser/WarningParser.go
index c064426..0864d7e 100644
--- a/sip/parser/WarningParser.go
+++ b/sip/parser/WarningParser.go
@@ -30,6 +30,30 @@ func NewWarningParserFromLexer(lexer core.Lexer) *WarningParser {
 	return this
 }
 
+// agent parses a host, with or without a port, or a token.
+func (this *WarningParser) agent() (agent string, ParseException error) {
+	lexer := this.GetLexer()
+	if ch, _ := lexer.LookAheadK(0); ch == '[' {
+		agent, ParseException = core.NewHostNameParserFromLexer(lexer).Ipv6Reference()
+		if ParseException != nil {
+			return "", ParseException
+		}
+	} else {
+		if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+			return "", ParseException
+		}
+		agent = lexer.GetNextToken().GetTokenValue()
+	}
+	if ch, _ := lexer.LookAheadK(0); ch == ':' {
+		lexer.ConsumeK(1)
+		if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+			return "", ParseException
+		}
+		agent += ":" + lexer.GetNextToken().GetTokenValue()
+	}
+	return agent, nil
+}
+
 /** parse the String message
  * @return SIPHeader (WarningList object)
  * @throws SIPParseException if the message does not respect the spec.
@@ -64,11 +88,11 @@ func (this *WarningParser) Parse() (sh header.Header, ParseException error) {
 		lexer.SPorHT()
 
 		// Parsing the agent
-		if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+		var agent string
+		if agent, ParseException = this.agent(); ParseException != nil {
 			return nil, ParseException
 		}
-		token = lexer.GetNextToken()
-		warning.SetAgent(token.GetTokenValue())
+		warning.SetAgent(agent)
 		lexer.SPorHT()
 
 		// Parsing the text
@@ -105,11 +129,11 @@ func (this *WarningParser) Parse() (sh header.Header, ParseException error) {
 			lexer.SPorHT()
 
 			// Parsing the agent
-			if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+			var agent string
+			if agent, ParseException = this.agent(); ParseException != nil {
 				return nil, ParseException
 			}
-			tok = lexer.GetNextToken()
-			warning.SetAgent(tok.GetTokenValue())
+			warning.SetAgent(agent)
 			lexer.SPorHT()
 
 			// Parsing the text
-- 
2.43.0


From 599b4b57a673ee0a973b6adff0abe89600a23b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:39 +0000
Subject: [PATCH 43/57] fix: parser: In-Reply-To takes any call id

---
 sip/parser/InReplyToParser.go | 48 +++++++++++++----------------------
 1 file changed, 18 insertions(+), 30 deletions(-)

diff --git a/sip/parser/InReplyToParser.go b/sip/parser/InReplyToParser.go
index 47fb199..eaf1ea3 100644
--- a/sip/parser/InReplyToParser.go
+++ b/sip/parser/InReplyToParser.go
@@ -1,6 +1,8 @@
 package parser
 
 import (
+	"bytes"
+
 	"github.com/use-go/gosips/core"
 	"github.com/use-go/gosips/sip/header"
 )
@@ -29,6 +31,20 @@ func NewInReplyToParserFromLexer(lexer core.Lexer) *InReplyToParser {
 	return this
 }
 
+// callID returns the call id that comes next, which ends at a blank or comma.
+func (this *InReplyToParser) callID() string {
+	var id bytes.Buffer
+	for this.GetLexer().HasMoreChars() {
+		ch, _ := this.GetLexer().LookAheadK(0)
+		if ch == ',' || ch == ' ' || ch == '\t' || ch == '\r' || ch == '\n' {
+			break
+		}
+		this.GetLexer().ConsumeK(1)
+		id.WriteByte(ch)
+	}
+	return id.String()
+}
+
 /** parse the String message
  * @return Header (InReplyToList object)
  * @throws SIPParseException if the message does not respect the spec.
@@ -46,23 +62,9 @@ func (this *InReplyToParser) Parse() (sh header.Header, ParseException error) {
 		inReplyTo := header.NewInReplyTo()
 		inReplyTo.SetHeaderName(core.SIPHeaderNames_IN_REPLY_TO)
 
-		if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+		if ParseException = inReplyTo.SetCallId(this.callID()); ParseException != nil {
 			return nil, ParseException
 		}
-		token := lexer.GetNextToken()
-		if ch, _ = lexer.LookAheadK(0); ch == '@' {
-			if _, ParseException = lexer.Match('@'); ParseException != nil {
-				return nil, ParseException
-			}
-			if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
-				return nil, ParseException
-			}
-			secToken := lexer.GetNextToken()
-			inReplyTo.SetCallId(token.GetTokenValue() + "@" +
-				secToken.GetTokenValue())
-		} else {
-			inReplyTo.SetCallId(token.GetTokenValue())
-		}
 
 		lexer.SPorHT()
 
@@ -76,23 +78,9 @@ func (this *InReplyToParser) Parse() (sh header.Header, ParseException error) {
 
 			inReplyTo = header.NewInReplyTo()
 
-			if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+			if ParseException = inReplyTo.SetCallId(this.callID()); ParseException != nil {
 				return nil, ParseException
 			}
-			token = lexer.GetNextToken()
-			if ch, _ = lexer.LookAheadK(0); ch == '@' {
-				if _, ParseException = lexer.Match('@'); ParseException != nil {
-					return nil, ParseException
-				}
-				if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
-					return nil, ParseException
-				}
-				secToken := lexer.GetNextToken()
-				inReplyTo.SetCallId(token.GetTokenValue() + "@" +
-					secToken.GetTokenValue())
-			} else {
-				inReplyTo.SetCallId(token.GetTokenValue())
-			}
 
 			lexer.SPorHT()
 
-- 
2.43.0


From e4abfc201255ecd7f2e92566ffb89b12f146fb16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:39 +0000
Subject: [PATCH 44/57] fix: parser: a comment may hold comments

---
 core/CoreLexer.go       | 8 +++++++-
 sip/parser/ViaParser.go | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/core/CoreLexer.go b/core/CoreLexer.go
index 236adcf..abff991 100644
--- a/core/CoreLexer.go
+++ b/core/CoreLexer.go
@@ -400,11 +400,17 @@ func (coreLexer *CoreLexer) Comment() (s string, err error) {
 		return "", errors.New("ParseException: comment expected")
 	}
 	coreLexer.ConsumeK(1)
+	depth := 1 // a comment may hold comments
 	for {
 		if next, err = coreLexer.GetNextChar(); err != nil {
 			break
 		}
-		if next == ')' {
+		if next == '(' {
+			depth++
+		} else if next == ')' {
+			depth--
+		}
+		if depth == 0 {
 			break
 			// } else if next == 0 { //'\0' {
 			// 	return "", errors.New("ParseException: unexpected EOL")
diff --git a/sip/parser/ViaParser.go b/sip/parser/ViaParser.go
index 13f53be..0d3306d 100644
--- a/sip/parser/ViaParser.go
+++ b/sip/parser/ViaParser.go
@@ -126,13 +126,19 @@ func (this *ViaParser) parseComment(v *header.Via) (ParseException error) {
 	lexer.ConsumeK(1)
 
 	var comment bytes.Buffer
+	depth := 1 // a comment may hold comments
 	for {
 		ch, err := lexer.LookAheadK(0)
 		if err != nil || ch == '\n' {
 			return this.CreateParseException("unterminated comment")
 		}
 		lexer.ConsumeK(1)
-		if ch == ')' {
+		if ch == '(' {
+			depth++
+		} else if ch == ')' {
+			depth--
+		}
+		if depth == 0 {
 			break
 		}
 		comment.WriteByte(ch)
-- 
2.43.0


From c4c0c2e641ef8da2ebe174186000f52538578a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:05 +0000
Subject: [PATCH 45/57] fix: message: ReduceString keeps characters outside
 ASCII

---
 sip/message/Utils.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sip/message/Utils.go b/sip/message/Utils.go
index 92306ad..66b9527 100644
--- a/sip/message/Utils.go
+++ b/sip/message/Utils.go
@@ -52,15 +52,15 @@ func GetQuotedString(str string) string {
 func ReduceString(input string) string {
 	newString := strings.ToLower(input)
 	length := len(newString)
-	var retval string
+	retval := make([]byte, 0, length)
 	for i := 0; i < length; i++ {
 		if newString[i] == ' ' || newString[i] == '\t' {
 			continue
 		} else {
-			retval += string(newString[i])
+			retval = append(retval, newString[i])
 		}
 	}
-	return retval
+	return string(retval)
 }
 
 /** Generate a call  identifier. This is useful when we want
-- 
2.43.0


From 5ecfb2d234538cb56d409b56fa0a498f36b1586f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:12 +0000
Subject: [PATCH 46/57] fix: parser: Expires takes all seconds below 2^32

---
 sip/parser/ExpiresParser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sip/parser/ExpiresParser.go b/sip/parser/ExpiresParser.go
index 54591f3..d48e7e7 100644
--- a/sip/parser/ExpiresParser.go
+++ b/sip/parser/ExpiresParser.go
@@ -46,7 +46,7 @@ func (this *ExpiresParser) Parse() (sh header.Header, ParseException error) {
 		return nil, ParseException
 	}
 	var delta int64
-	if delta, ParseException = strconv.ParseInt(nextId, 10, 32); ParseException != nil {
+	if delta, ParseException = strconv.ParseInt(nextId, 10, 64); ParseException != nil {
 		return nil, ParseException
 	}
 	if ParseException = expires.SetExpires(int(delta)); ParseException != nil {
-- 
2.43.0


From 62724607556413d6fb83fc4700994f10dbe4394b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:24 +0000
Subject: [PATCH 47/57] fix: header: stale is true in any letter case

---
 sip/header/AuthenticationImpl.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sip/header/AuthenticationImpl.go b/sip/header/AuthenticationImpl.go
index 16789e5..a7c4402 100644
--- a/sip/header/AuthenticationImpl.go
+++ b/sip/header/AuthenticationImpl.go
@@ -348,7 +348,7 @@ func (this *Authentication) SetStale(stale bool) {
  */
 func (this *Authentication) IsStale() bool {
 	stale := this.GetParameter(ParameterNames_STALE)
-	if stale == "true" {
+	if strings.EqualFold(stale, "true") {
 		return true
 	} else {
 		return false
-- 
2.43.0


From 0b212384f6d5a91da830698254bf61a883733989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:23 +0000
Subject: [PATCH 48/57] fix: parser: text after a complete header value is
 refused, not dropped

---
 sip/parser/AcceptParser.go            | 4 ++++
 sip/parser/ReplyToParser.go           | 4 ++++
 sip/parser/RetryAfterParser.go        | 4 ++++
 sip/parser/SubscriptionStateParser.go | 4 ++++
 sip/parser/TimeStampParser.go         | 4 ++++
 5 files changed, 20 insertions(+)

diff --git a/sip/parser/AcceptParser.go b/sip/parser/AcceptParser.go
index 425712a..b3664dc 100644
--- a/sip/parser/AcceptParser.go
+++ b/sip/parser/AcceptParser.go
@@ -107,5 +107,9 @@ func (this *AcceptParser) Parse() (sh header.Header, ParseException error) {
 		acceptList.PushBack(accept)
 
 	}
+	if _, ParseException = lexer.Match('\n'); ParseException != nil {
+		return nil, ParseException
+	}
+
 	return acceptList, nil
 }
diff --git a/sip/parser/ReplyToParser.go b/sip/parser/ReplyToParser.go
index 7804db9..0217538 100644
--- a/sip/parser/ReplyToParser.go
+++ b/sip/parser/ReplyToParser.go
@@ -47,5 +47,9 @@ func (this *ReplyToParser) Parse() (sh header.Header, ParseException error) {
 		return nil, ParseException
 	}
 
+	if _, ParseException = this.GetLexer().Match('\n'); ParseException != nil {
+		return nil, ParseException
+	}
+
 	return replyTo, nil
 }
diff --git a/sip/parser/RetryAfterParser.go b/sip/parser/RetryAfterParser.go
index 3cad638..9592c55 100644
--- a/sip/parser/RetryAfterParser.go
+++ b/sip/parser/RetryAfterParser.go
@@ -100,5 +100,9 @@ func (this *RetryAfterParser) Parse() (sh header.Header, ParseException error) {
 		lexer.SPorHT()
 	}
 
+	if _, ParseException = lexer.Match('\n'); ParseException != nil {
+		return nil, ParseException
+	}
+
 	return retryAfter, nil
 }
diff --git a/sip/parser/SubscriptionStateParser.go b/sip/parser/SubscriptionStateParser.go
index 4c2f902..e0d4030 100644
--- a/sip/parser/SubscriptionStateParser.go
+++ b/sip/parser/SubscriptionStateParser.go
@@ -128,5 +128,9 @@ func (this *SubscriptionStateParser) Parse() (sh header.Header, ParseException e
 		lexer.SPorHT()
 	}
 
+	if _, ParseException = lexer.Match('\n'); ParseException != nil {
+		return nil, ParseException
+	}
+
 	return subscriptionState, nil
 }
diff --git a/sip/parser/TimeStampParser.go b/sip/parser/TimeStampParser.go
index 02570f3..0619853 100644
--- a/sip/parser/TimeStampParser.go
+++ b/sip/parser/TimeStampParser.go
@@ -67,6 +67,10 @@ func (this *TimeStampParser) Parse() (sh header.Header, ParseException error) {
 		if ParseException = timeStamp.SetDelay(ts); ParseException != nil {
 			return nil, ParseException
 		}
+		lexer.SPorHT()
+	}
+	if _, ParseException = lexer.Match('\n'); ParseException != nil {
+		return nil, ParseException
 	}
 
 	return timeStamp, nil
-- 
2.43.0


From 97fbc20966529251b6898295811834c5be4531b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:26 +0000
Subject: [PATCH 49/57] fix: a Contact of * says that it is a wild card, and
 the flag can be taken back

---
 sip/header/ContactImpl.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/sip/header/ContactImpl.go b/sip/header/ContactImpl.go
index 5ce33ab..196f8f5 100644
--- a/sip/header/ContactImpl.go
+++ b/sip/header/ContactImpl.go
@@ -85,7 +85,8 @@ func (this *Contact) GetContactList() *ContactList {
  * @return boolean
  */
 func (this *Contact) GetWildCardFlag() bool {
-	return this.wildCardFlag
+	// stored as a wild card address by SetWildCardFlag and SetAddress.
+	return this.wildCardFlag || this.addr != nil && this.addr.IsWildcard()
 }
 
 /** get the address field.
@@ -134,7 +135,12 @@ func (this *Contact) SetContactList(cl *ContactList) {
  * @param w boolean to set
  */
 func (this *Contact) SetWildCardFlag(w bool) {
-	this.wildCardFlag = true
+	if !w {
+		if this.GetWildCardFlag() {
+			this.SetAddress(nil)
+		}
+		return
+	}
 	addr := address.NewAddressImpl()
 	addr.SetWildCardFlag()
 	this.SetAddress(addr)
-- 
2.43.0


From f87d0b07badb5ea032655f44c354352059f7a205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:54 +0000
Subject: [PATCH 50/57] fix: accept the q parameter of Accept-Language and
 Accept-Encoding in either letter case

---
 sip/parser/AcceptEncodingParser.go | 5 ++++-
 sip/parser/AcceptLanguageParser.go | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/sip/parser/AcceptEncodingParser.go b/sip/parser/AcceptEncodingParser.go
index d9a7af9..4a96ab6 100644
--- a/sip/parser/AcceptEncodingParser.go
+++ b/sip/parser/AcceptEncodingParser.go
@@ -87,7 +87,10 @@ func (this *AcceptEncodingParser) Parse() (sh header.Header, ParseException erro
 					return nil, ParseException
 				}
 				lexer.SPorHT()
-				if _, ParseException = lexer.Match('q'); ParseException != nil {
+				if ch, _ = lexer.LookAheadK(0); ch != 'Q' { // names of parameters have no case
+					ch = 'q'
+				}
+				if _, ParseException = lexer.Match(int(ch)); ParseException != nil {
 					return nil, ParseException
 				}
 				lexer.SPorHT()
diff --git a/sip/parser/AcceptLanguageParser.go b/sip/parser/AcceptLanguageParser.go
index 225d3b3..e2f8f83 100644
--- a/sip/parser/AcceptLanguageParser.go
+++ b/sip/parser/AcceptLanguageParser.go
@@ -77,7 +77,10 @@ func (this *AcceptLanguageParser) Parse() (sh header.Header, ParseException erro
 				return nil, ParseException
 			}
 			lexer.SPorHT()
-			if _, ParseException = lexer.Match('q'); ParseException != nil {
+			if ch, _ = lexer.LookAheadK(0); ch != 'Q' { // names of parameters have no case
+				ch = 'q'
+			}
+			if _, ParseException = lexer.Match(int(ch)); ParseException != nil {
 				return nil, ParseException
 			}
 			lexer.SPorHT()
-- 
2.43.0


From 56671d6ed27546e189a94735f1741b34ad50093b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:04 +0000
Subject: [PATCH 51/57] fix: header: a URI that is set again keeps its place
 among the authentication parameters

---
 sip/header/AuthenticationImpl.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/sip/header/AuthenticationImpl.go b/sip/header/AuthenticationImpl.go
index a7c4402..6c6f21c 100644
--- a/sip/header/AuthenticationImpl.go
+++ b/sip/header/AuthenticationImpl.go
@@ -190,9 +190,7 @@ func (this *Authentication) GetNonce() string {
  */
 func (this *Authentication) SetURI(uri address.URI) error {
 	if uri != nil {
-		nv := core.NewNameValue(ParameterNames_URI, uri.String())
-		nv.SetQuotedValue()
-		this.parameters.SetNameValue(nv)
+		this.SetQuotedParameter(ParameterNames_URI, uri.String())
 		return nil
 	} else {
 		return errors.New("NullPointerException: Null URI")
-- 
2.43.0


From 910a25ff41a8afcaf170b1656d215175f144394a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:11 +0000
Subject: [PATCH 52/57] fix: header: SetParameterFromNameValue replaces the
 parameter of the name rather than adding another

---
 sip/header/ParametersImpl.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sip/header/ParametersImpl.go b/sip/header/ParametersImpl.go
index 39002d7..7bca21f 100644
--- a/sip/header/ParametersImpl.go
+++ b/sip/header/ParametersImpl.go
@@ -183,7 +183,13 @@ func (this *Parameters) SetParameter(name, value string) (ParseException error)
  * @param nameValue - the name value of the parameter to set.
  */
 func (this *Parameters) SetParameterFromNameValue(nameValue *core.NameValue) {
-	this.parameters.AddNameValue(nameValue)
+	if nv := this.parameters.GetNameValue(nameValue.GetName()); nv != nil {
+		name := nv.GetName()
+		*nv = *nameValue
+		nv.SetName(name)
+	} else {
+		this.parameters.AddNameValue(nameValue)
+	}
 }
 
 /**
-- 
2.43.0


From 1e5332b37aac738e2484614caa4e1a2ef0d58b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:37 +0000
Subject: [PATCH 53/57] fix: parser: a flag parameter of a tel URL is encoded
 without =, so that it parses before a blank

---
 sip/parser/URLParser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sip/parser/URLParser.go b/sip/parser/URLParser.go
index 8856705..c49ab0e 100644
--- a/sip/parser/URLParser.go
+++ b/sip/parser/URLParser.go
@@ -431,6 +431,9 @@ func (this *URLParser) Tel_parameters() (nvl *core.NameValueList, ParseException
 		if nv, ParseException = this.NameValue('='); ParseException != nil {
 			return nil, ParseException
 		}
+		if nv.GetValue() == "" { // a flag: with '=' it would not parse before a blank
+			nv = core.NewNameValue(nv.GetName(), nil)
+		}
 		nvList.AddNameValue(nv)
 		tok, _ := this.GetLexer().LookAheadK(0)
 		if tok == ';' {
-- 
2.43.0


From ae66a275124c02b2c49bf905c97d906289a7310f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:49 +0000
Subject: [PATCH 54/57] fix: header: copies of From, To and Contact have their
 own address

---
 sip/address/AddressImpl.go          | 9 +++++++++
 sip/header/AddressParametersImpl.go | 8 ++++++++
 sip/header/ContactImpl.go           | 4 ++--
 sip/header/FromImpl.go              | 4 ++--
 sip/header/ToImpl.go                | 4 ++--
 5 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/sip/address/AddressImpl.go b/sip/address/AddressImpl.go
index a68cb6e..5b7db63 100644
--- a/sip/address/AddressImpl.go
+++ b/sip/address/AddressImpl.go
@@ -32,6 +32,15 @@ func NewAddressImpl() *AddressImpl {
 	return &AddressImpl{}
 }
 
+// Clone returns a copy of this address with its own URI.
+func (this *AddressImpl) Clone() interface{} {
+	retval := *this
+	if this.address != nil {
+		retval.address = this.address.Clone().(URI)
+	}
+	return &retval
+}
+
 /** Match on the address only.
  * Dont care about the display name.
  */
diff --git a/sip/header/AddressParametersImpl.go b/sip/header/AddressParametersImpl.go
index fd35d41..b0bc41e 100644
--- a/sip/header/AddressParametersImpl.go
+++ b/sip/header/AddressParametersImpl.go
@@ -37,3 +37,11 @@ func (this *AddressParameters) GetAddress() address.Address {
 func (this *AddressParameters) SetAddress(addr address.Address) {
 	this.addr = addr
 }
+
+// cloneAddress returns a copy of the address of this header.
+func (this *AddressParameters) cloneAddress() address.Address {
+	if addr, ok := this.addr.(*address.AddressImpl); ok && addr != nil {
+		return addr.Clone().(*address.AddressImpl)
+	}
+	return this.addr
+}
diff --git a/sip/header/ContactImpl.go b/sip/header/ContactImpl.go
index 196f8f5..063048c 100644
--- a/sip/header/ContactImpl.go
+++ b/sip/header/ContactImpl.go
@@ -209,10 +209,10 @@ func (this *Contact) SetQValue(q float32) (InvalidArgumentException error) {
 	return nil
 }
 
-// Clone returns a copy of this header with its own parameters.
+// Clone returns a copy of this header with its own address and parameters.
 func (this *Contact) Clone() interface{} {
 	retval := NewContact()
-	retval.addr = this.addr
+	retval.addr = this.cloneAddress()
 	retval.wildCardFlag = this.wildCardFlag
 	retval.parameters = this.parameters.Clone().(*core.NameValueList)
 	return retval
diff --git a/sip/header/FromImpl.go b/sip/header/FromImpl.go
index 24aad97..f335b7f 100644
--- a/sip/header/FromImpl.go
+++ b/sip/header/FromImpl.go
@@ -177,10 +177,10 @@ func (this *From) GetUserAtHostPort() string {
 	return addr.GetUserAtHostPort()
 }
 
-// Clone returns a copy of this header with its own parameters.
+// Clone returns a copy of this header with its own address and parameters.
 func (this *From) Clone() interface{} {
 	retval := NewFrom()
-	retval.addr = this.addr
+	retval.addr = this.cloneAddress()
 	retval.parameters = this.parameters.Clone().(*core.NameValueList)
 	return retval
 }
diff --git a/sip/header/ToImpl.go b/sip/header/ToImpl.go
index e09498b..365aac1 100644
--- a/sip/header/ToImpl.go
+++ b/sip/header/ToImpl.go
@@ -175,10 +175,10 @@ func (this *To) GetUserAtHostPort() string {
 	return addr.GetUserAtHostPort()
 }
 
-// Clone returns a copy of this header with its own parameters.
+// Clone returns a copy of this header with its own address and parameters.
 func (this *To) Clone() interface{} {
 	retval := NewTo()
-	retval.addr = this.addr
+	retval.addr = this.cloneAddress()
 	retval.parameters = this.parameters.Clone().(*core.NameValueList)
 	return retval
 }
-- 
2.43.0


From 21f9d58407f4c72ed7d4f27d48eeb8efd4a38779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:30 +0000
Subject: [PATCH 55/57] fix: message: SetRequestLineDefaults of a request
 without a request line panicked

---
 sip/message/SIPRequest.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sip/message/SIPRequest.go b/sip/message/SIPRequest.go
index 255d897..4498bbc 100644
--- a/sip/message/SIPRequest.go
+++ b/sip/message/SIPRequest.go
@@ -173,6 +173,9 @@ func (this *SIPRequest) SetDefaults() {
 // * Patch up the request line as necessary.
 // */
 func (this *SIPRequest) SetRequestLineDefaults() {
+	if this.requestLine == nil {
+		return
+	}
 	method := this.requestLine.GetMethod()
 	if method == "" {
 		cseq := this.cSeqHeader
-- 
2.43.0


From ce3e69b6664a01cce3597b6456a2cae46f38aadc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:18 +0000
Subject: [PATCH 56/57] fix: header: a From made of a To, and the other way
 round, has its own address

---
 sip/header/FromImpl.go | 2 +-
 sip/header/ToImpl.go   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sip/header/FromImpl.go b/sip/header/FromImpl.go
index f335b7f..5356f31 100644
--- a/sip/header/FromImpl.go
+++ b/sip/header/FromImpl.go
@@ -31,7 +31,7 @@ func (this *From) super(name string) {
  */
 func (this *From) CloneTo(to *To) {
 	this.super(core.SIPHeaderNames_FROM)
-	this.addr = to.addr
+	this.addr = to.cloneAddress()
 	this.parameters = to.parameters.Clone().(*core.NameValueList)
 }
 
diff --git a/sip/header/ToImpl.go b/sip/header/ToImpl.go
index 365aac1..88018cf 100644
--- a/sip/header/ToImpl.go
+++ b/sip/header/ToImpl.go
@@ -31,7 +31,7 @@ func (this *To) super(name string) {
  */
 func (this *To) CloneFrom(from *From) {
 	this.super(core.SIPHeaderNames_TO)
-	this.SetAddress(from.addr)
+	this.SetAddress(from.cloneAddress())
 	this.SetParameters(from.parameters.Clone().(*core.NameValueList))
 }
 
-- 
2.43.0


From 4a13176d2b503952bee7a7cf75a4816d36e0b3a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:42 +0000
Subject: [PATCH 57/57] fix: refuse a URI parameter without a name

---
 sip/parser/URLParser.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sip/parser/URLParser.go b/sip/parser/URLParser.go
index c49ab0e..cbad985 100644
--- a/sip/parser/URLParser.go
+++ b/sip/parser/URLParser.go
@@ -113,11 +113,11 @@ func (this *URLParser) UriParam() (nv *core.NameValue, ParseException error) {
 	if pname, ParseException = this.ParamNameOrValue(); ParseException != nil {
 		return nil, ParseException
 	}
+	if pname == "" {
+		return nil, this.CreateParseException("Expecting a parameter name")
+	}
 	next, _ := this.GetLexer().LookAheadK(0)
 	if next == '=' {
-		if pname == "" {
-			return nil, this.CreateParseException("Expecting a parameter name")
-		}
 		this.GetLexer().ConsumeK(1)
 		if pvalue, ParseException = this.ParamNameOrValue(); ParseException != nil {
 			return nil, ParseException
-- 
2.43.0

