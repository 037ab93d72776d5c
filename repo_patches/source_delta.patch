From 51280360309a93d75d936109081376839c81bef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:34 +0000
Subject: [PATCH 01/33] fix: AUTH keeps its reason code when encoded,
 SetReasonCode accepts the valid codes

---
 mqttp/auth.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mqttp/auth.go b/mqttp/auth.go
index 1806bbd..d410b71 100644
--- a/mqttp/auth.go
+++ b/mqttp/auth.go
@@ -48,7 +48,7 @@ func (msg *Auth) ReasonCode() ReasonCode {
 
 // SetReasonCode set authentication reason code
 func (msg *Auth) SetReasonCode(c ReasonCode) error {
-	if msg.authReason.IsValidForType(msg.mType) {
+	if !c.IsValidForType(msg.mType) {
 		return ErrInvalidMessageType
 	}
 
@@ -90,6 +90,8 @@ func (msg *Auth) decodeMessage(from []byte) (int, error) {
 func (msg *Auth) encodeMessage(to []byte) (int, error) {
 	offset := 0
 	to[offset] = byte(msg.authReason)
+	offset++
+
 	n, err := msg.properties.encode(to[offset:])
 
 	return offset + n, err
-- 
2.43.0


From df092e38e793038868db754a5db825860e890e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:59 +0000
Subject: [PATCH 02/33] fix: UNSUBACK version 5 reason codes are accepted and
 checked when added and decoded

---
 mqttp/unsuback.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/mqttp/unsuback.go b/mqttp/unsuback.go
index e6eda4e..10cead6 100644
--- a/mqttp/unsuback.go
+++ b/mqttp/unsuback.go
@@ -51,15 +51,17 @@ func (msg *UnSubAck) ReturnCodes() []ReasonCode {
 // An error is returned if any of the QoS values are not valid.
 func (msg *UnSubAck) AddReturnCodes(ret []ReasonCode) error {
 	for _, c := range ret {
-		if msg.version == ProtocolV50 && !c.IsValidForType(msg.mType) {
-			return ErrInvalidReturnCode
+		if msg.version == ProtocolV50 {
+			if !c.IsValidForType(msg.mType) {
+				return ErrInvalidReturnCode
+			}
 		} else if !QosType(c).IsValidFull() {
 			return ErrInvalidReturnCode
 		}
-
-		msg.returnCodes = append(msg.returnCodes, c)
 	}
 
+	msg.returnCodes = append(msg.returnCodes, ret...)
+
 	return nil
 }
 
@@ -80,7 +82,12 @@ func (msg *UnSubAck) decodeMessage(from []byte) (int, error) {
 		}
 
 		for _, c := range from[offset:msg.remLen] {
+			if !ReasonCode(c).IsValidForType(msg.mType) {
+				return offset, CodeProtocolError
+			}
+
 			msg.returnCodes = append(msg.returnCodes, ReasonCode(c))
+			offset++
 		}
 	}
 
-- 
2.43.0


From cfcb5f52214868733cbcb58c351a2271579e044a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:32 +0000
Subject: [PATCH 03/33] fix: CONNACK and PUBACK know all reason codes of MQTT 5

---
 mqttp/reasonCodes.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mqttp/reasonCodes.go b/mqttp/reasonCodes.go
index 0c39ea6..4bf7c6b 100644
--- a/mqttp/reasonCodes.go
+++ b/mqttp/reasonCodes.go
@@ -76,6 +76,7 @@ var packetTypeCodeMap = map[Type]map[ReasonCode]struct {
 		CodeRefusedNotAuthorized:               {iss: CodeIssuerClient, desc: "The Client is not authorized to connect"},
 		CodeUnspecifiedError:                   {iss: CodeIssuerServer, desc: "The Server does not wish to reveal the reason for the failure, or none of the other Return Codes apply"},
 		CodeMalformedPacket:                    {iss: CodeIssuerServer, desc: "Data within the CONNECT Packet was not consistent with this specification"},
+		CodeProtocolError:                      {iss: CodeIssuerServer, desc: "Data in the CONNECT packet does not conform to this specification"},
 		CodeImplementationSpecificError:        {iss: CodeIssuerServer, desc: "The CONNECT is valid but is not accepted by this Server"},
 		CodeUnsupportedProtocol:                {iss: CodeIssuerServer, desc: "The Server does not support the level of the MQTT protocol requested by the Client"},
 		CodeInvalidClientID:                    {iss: CodeIssuerServer, desc: "The Client Identifier is a valid string but is not allowed by the Server"},
@@ -88,6 +89,7 @@ var packetTypeCodeMap = map[Type]map[ReasonCode]struct {
 		CodeInvalidTopicName:                   {iss: CodeIssuerServer, desc: "The Will Topic Name is not malformed, but is not accepted by this Server"},
 		CodePacketTooLarge:                     {iss: CodeIssuerServer, desc: "The Accept Packet exceeded the maximum permissible size"},
 		CodeQuotaExceeded:                      {iss: CodeIssuerServer, desc: "An implementation or administrative imposed limit has been exceeded"},
+		CodeInvalidPayloadFormat:               {iss: CodeIssuerServer, desc: "The Will Payload does not match the specified Payload Format Indicator"},
 		CodeRetainNotSupported:                 {iss: CodeIssuerServer, desc: "The Server does not support retained messages, and Will Retain was set to 1"},
 		CodeNotSupportedQoS:                    {iss: CodeIssuerServer, desc: "The Server does not support the QoS set in Will QoS"},
 		CodeUseAnotherServer:                   {iss: CodeIssuerServer, desc: "The Client should temporarily use another server"},
@@ -101,6 +103,7 @@ var packetTypeCodeMap = map[Type]map[ReasonCode]struct {
 		CodeImplementationSpecificError: {iss: CodeIssuerBoth, desc: "The PUBLISH is valid but the receiver is not willing to accept it"},
 		CodeNotAuthorized:               {iss: CodeIssuerBoth, desc: "The PUBLISH is not authorized"},
 		CodeInvalidTopicName:            {iss: CodeIssuerBoth, desc: "The topic name is valid, but is not accepted"},
+		CodePacketIDInUse:               {iss: CodeIssuerBoth, desc: "The packet identifier is already in use"},
 		CodeQuotaExceeded:               {iss: CodeIssuerBoth, desc: "An implementation imposed limit has been exceeded"},
 		CodeInvalidPayloadFormat:        {iss: CodeIssuerBoth, desc: "The payload format does not match the one specified in the Payload Format Indicator"},
 	},
-- 
2.43.0


From a44975613b8ef1e05a613a2c1366fb9f1337bb42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:44 +0000
Subject: [PATCH 04/33] fix: SUBACK version 5 failure codes are decoded, a
 refused code list changes nothing

---
 mqttp/suback.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/mqttp/suback.go b/mqttp/suback.go
index 1ed7f89..d93c968 100644
--- a/mqttp/suback.go
+++ b/mqttp/suback.go
@@ -54,10 +54,10 @@ func (msg *SubAck) AddReturnCodes(ret []ReasonCode) error {
 		} else if !QosType(c).IsValidFull() {
 			return ErrInvalidReturnCode
 		}
-
-		msg.returnCodes = append(msg.returnCodes, c)
 	}
 
+	msg.returnCodes = append(msg.returnCodes, ret...)
+
 	return nil
 }
 
@@ -87,8 +87,10 @@ func (msg *SubAck) decodeMessage(from []byte) (int, error) {
 
 	for i, q := range from[offset : offset+numCodes] {
 		code := ReasonCode(q)
-		if msg.version == ProtocolV50 && !code.IsValidForType(msg.mType) {
-			return offset + i, CodeProtocolError
+		if msg.version == ProtocolV50 {
+			if !code.IsValidForType(msg.mType) {
+				return offset + i, CodeProtocolError
+			}
 		} else if !QosType(code).IsValidFull() {
 			return offset + i, CodeRefusedServerUnavailable
 		}
-- 
2.43.0


From b5272f7a45d473bf6b6130406f3cbeaaf09ed6b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:00 +0000
Subject: [PATCH 05/33] fix: an empty property list writes its zero length

---
 mqttp/property.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mqttp/property.go b/mqttp/property.go
index 4940c15..181b8fe 100644
--- a/mqttp/property.go
+++ b/mqttp/property.go
@@ -439,6 +439,7 @@ func (p *property) encode(to []byte) (int, error) {
 	}
 
 	if pLen == 1 {
+		to[0] = 0
 		return 1, nil
 	}
 
-- 
2.43.0


From f6c064eb4ac8fd6415432489bc294b44c14930db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:19 +0000
Subject: [PATCH 06/33] fix: UNSUBSCRIBE carries its properties and any number
 of topics

---
 mqttp/unsubscribe.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/mqttp/unsubscribe.go b/mqttp/unsubscribe.go
index c56ef2b..275d43f 100644
--- a/mqttp/unsubscribe.go
+++ b/mqttp/unsubscribe.go
@@ -91,7 +91,7 @@ func (msg *UnSubscribe) decodeMessage(from []byte) (int, error) {
 
 		msg.topics = append(msg.topics, topic)
 
-		remLen = remLen - n - 1
+		remLen -= n
 	}
 
 	// [MQTT-3.10.3-2]
@@ -121,6 +121,16 @@ func (msg *UnSubscribe) encodeMessage(dst []byte) (int, error) {
 
 	total := msg.encodePacketID(dst)
 
+	// V5.0
+	// [MQTT-3.10.2.1] UNSUBSCRIBE Properties
+	if msg.version >= ProtocolV50 {
+		n, err = msg.properties.encode(dst[total:])
+		total += n
+		if err != nil {
+			return total, err
+		}
+	}
+
 	for _, t := range msg.topics {
 		n, err = WriteLPBytes(dst[total:], t.full)
 		total += n
@@ -142,6 +152,12 @@ func (msg *UnSubscribe) size() int {
 	// packet ID
 	total := 2
 
+	// V5.0
+	// [MQTT-3.10.2.1] UNSUBSCRIBE Properties
+	if msg.version >= ProtocolV50 {
+		total += msg.properties.FullLen()
+	}
+
 	for _, t := range msg.topics {
 		total += 2 + len(t.full)
 	}
-- 
2.43.0


From 65132446f56b3a1c07982e3b33f5138d8b391768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:16 +0000
Subject: [PATCH 07/33] fix: repeated subscription identifiers are kept,
 property length follows the stored values

---
 mqttp/property.go | 54 +++++++++++++++++++++++++++++++++++------------
 1 file changed, 41 insertions(+), 13 deletions(-)

diff --git a/mqttp/property.go b/mqttp/property.go
index 181b8fe..7bc563a 100644
--- a/mqttp/property.go
+++ b/mqttp/property.go
@@ -59,6 +59,7 @@ type PropertyToType interface {
 	AsByte() (byte, error)
 	AsShort() (uint16, error)
 	AsInt() (uint32, error)
+	AsInts() ([]uint32, error)
 	AsString() (string, error)
 	AsStringPair() (StringPair, error)
 	AsStringPairs() ([]StringPair, error)
@@ -100,6 +101,18 @@ func (t *propertyToType) AsInt() (uint32, error) {
 	return 0, ErrPropertyWrongType
 }
 
+// AsInts value or values of property which might be set more than once
+func (t *propertyToType) AsInts() ([]uint32, error) {
+	switch v := t.v.(type) {
+	case uint32:
+		return []uint32{v}, nil
+	case []uint32:
+		return v, nil
+	}
+
+	return []uint32{}, ErrPropertyWrongType
+}
+
 func (t *propertyToType) AsString() (string, error) {
 	if v, ok := t.v.(string); ok {
 		return v, nil
@@ -135,7 +148,6 @@ func (t *propertyToType) AsBinary() ([]byte, error) {
 // property implements Property
 type property struct {
 	properties map[PropertyID]interface{}
-	len        int
 }
 
 const (
@@ -327,17 +339,25 @@ func (p PropertyID) IsValidPacketType(t Type) bool {
 
 func (p *property) reset() {
 	p.properties = make(map[PropertyID]interface{})
-	p.len = 0
 }
 
 // Len of the encoded property field. Does not include size property len prefix
 func (p *property) Len() (int, int) {
-	return p.len, uvarintCalc(uint32(p.len))
+	l := 0
+
+	for id, val := range p.properties {
+		n, _ := propertyCalcLen[propertyTypeMap[id]](id, val)
+		l += n
+	}
+
+	return l, uvarintCalc(uint32(l))
 }
 
 // FullLen len of the property len prefix + size of properties
 func (p *property) FullLen() int {
-	return p.len + uvarintCalc(uint32(p.len))
+	l, n := p.Len()
+
+	return l + n
 }
 
 // Set property value
@@ -349,11 +369,13 @@ func (p *property) Set(t Type, id PropertyID, val interface{}) error {
 	}
 
 	fn := propertyCalcLen[propertyTypeMap[id]]
-	l, err := fn(id, val)
-	p.len += l
+	if _, err := fn(id, val); err != nil {
+		return err
+	}
+
 	p.properties[id] = val
 
-	return err
+	return nil
 }
 
 // Get property value
@@ -425,7 +447,6 @@ func (p *property) decode(t Type, from []byte) (int, error) {
 			return offset, CodeProtocolError
 		}
 
-		p.len += count
 		pLen -= uint32(count)
 	}
 
@@ -433,12 +454,12 @@ func (p *property) decode(t Type, from []byte) (int, error) {
 }
 
 func (p *property) encode(to []byte) (int, error) {
-	pLen := p.FullLen()
-	if pLen > len(to) {
+	pLen, lCount := p.Len()
+	if pLen+lCount > len(to) {
 		return 0, ErrInsufficientBufferSize
 	}
 
-	if pLen == 1 {
+	if pLen == 0 {
 		to[0] = 0
 		return 1, nil
 	}
@@ -446,7 +467,7 @@ func (p *property) encode(to []byte) (int, error) {
 	var offset int
 	var err error
 	// Encode variable length header
-	total := binary.PutUvarint(to, uint64(p.len))
+	total := binary.PutUvarint(to, uint64(pLen))
 
 	for k, v := range p.properties {
 		fn := propertyEncodeType[propertyTypeMap[k]]
@@ -656,7 +677,14 @@ func decodeVarInt(p *property, id PropertyID, from []byte) (int, error) {
 	}
 	offset += cnt
 
-	p.properties[id] = v
+	switch prev := p.properties[id].(type) {
+	case uint32:
+		p.properties[id] = []uint32{prev, v}
+	case []uint32:
+		p.properties[id] = append(prev, v)
+	default:
+		p.properties[id] = v
+	}
 
 	return offset, nil
 }
-- 
2.43.0


From 6a1d3819d9922f23e135477d745ca362f0a3cf07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:56 +0000
Subject: [PATCH 08/33] fix: a length field of more than four bytes is
 malformed, not incomplete

---
 mqttp/header.go | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/mqttp/header.go b/mqttp/header.go
index c726b3e..1a7375d 100644
--- a/mqttp/header.go
+++ b/mqttp/header.go
@@ -276,8 +276,15 @@ func (h *header) decode(from []byte) (int, error) {
 	offset++
 
 	remLen, m := uvarint(from[offset:])
-	if m <= 0 {
+	if m == 0 {
 		return offset, ErrInsufficientDataSize
+	} else if m < 0 {
+		// [MQTT-2.2.3] the length field is longer than four bytes, more data can't make it valid
+		rejectCode := CodeRefusedServerUnavailable
+		if h.version == ProtocolV50 {
+			rejectCode = CodeMalformedPacket
+		}
+		return offset, rejectCode
 	}
 
 	fhLen := m + 1
@@ -310,12 +317,12 @@ func (h *header) decode(from []byte) (int, error) {
 	return offset, err
 }
 
-// uvarint decodes a uint32 from buf and returns that value and the
-// number of bytes read (> 0). If an error occurred, the value is 0
+// uvarint decodes a variable byte integer from buf and returns that value
+// and the number of bytes read (> 0). If an error occurred, the value is 0
 // and the number of bytes n is <= 0 meaning:
 //
 //	n == 0: buf too small
-//	n  < 0: value larger than 32 bits (overflow)
+//	n  < 0: value is encoded with more than four bytes (overflow)
 //              and -n is the number of bytes read
 //
 // copied from binary.Uvariant
@@ -323,10 +330,10 @@ func uvarint(buf []byte) (uint32, int) {
 	var x uint32
 	var s uint
 	for i, b := range buf {
+		if i > 3 {
+			return 0, -(i + 1) // overflow
+		}
 		if b < 0x80 {
-			if i > 4 || i == 4 && b > 1 {
-				return 0, -(i + 1) // overflow
-			}
 			return x | uint32(b)<<s, i + 1
 		}
 		x |= uint32(b&0x7f) << s
-- 
2.43.0


From 388616bd17a856b786765ab8000eda3dee1b7d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:20 +0000
Subject: [PATCH 09/33] fix: a packet that ends inside its packet identifier is
 malformed

---
 mqttp/header.go      | 13 +++++++++++--
 mqttp/puback.go      |  5 ++++-
 mqttp/publish.go     |  6 +++++-
 mqttp/suback.go      |  5 ++++-
 mqttp/subscribe.go   |  5 ++++-
 mqttp/unsuback.go    |  5 ++++-
 mqttp/unsubscribe.go |  5 ++++-
 7 files changed, 36 insertions(+), 8 deletions(-)

diff --git a/mqttp/header.go b/mqttp/header.go
index 1a7375d..910f187 100644
--- a/mqttp/header.go
+++ b/mqttp/header.go
@@ -196,12 +196,21 @@ func (h *header) setPacketID(id IDType) {
 	binary.BigEndian.PutUint16(h.packetID, uint16(id))
 }
 
-func (h *header) decodePacketID(src []byte) int {
+func (h *header) decodePacketID(src []byte) (int, error) {
+	// [MQTT-2.3.1] packet id takes two bytes
+	if len(src) < 2 {
+		rejectCode := CodeRefusedServerUnavailable
+		if h.version == ProtocolV50 {
+			rejectCode = CodeMalformedPacket
+		}
+		return 0, rejectCode
+	}
+
 	if len(h.packetID) == 0 {
 		h.packetID = make([]byte, 2)
 	}
 
-	return copy(h.packetID, src)
+	return copy(h.packetID, src), nil
 }
 
 func (h *header) encodePacketID(dst []byte) int {
diff --git a/mqttp/puback.go b/mqttp/puback.go
index ba25a8c..b73dd04 100644
--- a/mqttp/puback.go
+++ b/mqttp/puback.go
@@ -77,7 +77,10 @@ func (msg *Ack) Reason() ReasonCode {
 }
 
 func (msg *Ack) decodeMessage(from []byte) (int, error) {
-	offset := msg.decodePacketID(from)
+	offset, err := msg.decodePacketID(from)
+	if err != nil {
+		return offset, err
+	}
 
 	if msg.version == ProtocolV50 {
 		// [MQTT-3.4.2.1]
diff --git a/mqttp/publish.go b/mqttp/publish.go
index bee470d..34060a5 100644
--- a/mqttp/publish.go
+++ b/mqttp/publish.go
@@ -298,7 +298,11 @@ func (msg *Publish) decodeMessage(from []byte) (int, error) {
 	// The packet identifier field is only present in the PUBLISH packets where the
 	// QoS level is 1 or 2
 	if msg.QoS() != QoS0 {
-		offset += msg.decodePacketID(from[offset:])
+		n, err = msg.decodePacketID(from[offset:])
+		offset += n
+		if err != nil {
+			return offset, err
+		}
 	}
 
 	if msg.version == ProtocolV50 {
diff --git a/mqttp/suback.go b/mqttp/suback.go
index d93c968..e67682a 100644
--- a/mqttp/suback.go
+++ b/mqttp/suback.go
@@ -73,7 +73,10 @@ func (msg *SubAck) SetPacketID(v IDType) {
 
 // decode message
 func (msg *SubAck) decodeMessage(from []byte) (int, error) {
-	offset := msg.decodePacketID(from)
+	offset, err := msg.decodePacketID(from)
+	if err != nil {
+		return offset, err
+	}
 
 	if msg.version == ProtocolV50 {
 		n, err := msg.properties.decode(msg.Type(), from[offset:])
diff --git a/mqttp/subscribe.go b/mqttp/subscribe.go
index 70dcd59..e6b411e 100644
--- a/mqttp/subscribe.go
+++ b/mqttp/subscribe.go
@@ -71,7 +71,10 @@ func (msg *Subscribe) decodeMessage(from []byte) (int, error) {
 		return 0, CodeProtocolError
 	}
 
-	offset := msg.decodePacketID(from)
+	offset, err := msg.decodePacketID(from)
+	if err != nil {
+		return offset, err
+	}
 
 	// v5 [MQTT-3.1.2.11] specifies properties in variable header
 	if msg.version == ProtocolV50 {
diff --git a/mqttp/unsuback.go b/mqttp/unsuback.go
index 10cead6..9428513 100644
--- a/mqttp/unsuback.go
+++ b/mqttp/unsuback.go
@@ -72,7 +72,10 @@ func (msg *UnSubAck) AddReturnCode(ret ReasonCode) error {
 
 // decode message
 func (msg *UnSubAck) decodeMessage(from []byte) (int, error) {
-	offset := msg.decodePacketID(from)
+	offset, err := msg.decodePacketID(from)
+	if err != nil {
+		return offset, err
+	}
 
 	if msg.version == ProtocolV50 && (int(msg.remLen)-offset) > 0 {
 		n, err := msg.properties.decode(msg.Type(), from[offset:])
diff --git a/mqttp/unsubscribe.go b/mqttp/unsubscribe.go
index 275d43f..1998202 100644
--- a/mqttp/unsubscribe.go
+++ b/mqttp/unsubscribe.go
@@ -62,7 +62,10 @@ func (msg *UnSubscribe) SetPacketID(v IDType) {
 // when io.Reader returns EOF or error. The first return value is the number of
 // bytes read from io.Reader. The second is error if decode encounters any problems.
 func (msg *UnSubscribe) decodeMessage(from []byte) (int, error) {
-	offset := msg.decodePacketID(from)
+	offset, err := msg.decodePacketID(from)
+	if err != nil {
+		return offset, err
+	}
 
 	remLen := int(msg.remLen) - offset
 
-- 
2.43.0


From 065fc33f916afac2cc5aa754a1ce32dd313c6c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:50 +0000
Subject: [PATCH 10/33] fix: SUBSCRIBE version 5 with reserved retain handling
 or no-local shared subscription is rejected

---
 mqttp/packet.go    |  2 +-
 mqttp/subscribe.go | 12 ++++++++++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/mqttp/packet.go b/mqttp/packet.go
index fae93f3..8c22269 100644
--- a/mqttp/packet.go
+++ b/mqttp/packet.go
@@ -24,7 +24,7 @@ const (
 	// RetainHandlingIfNotExists publish retained messages on subscribe only when it's new subscription to given topic
 	RetainHandlingIfNotExists
 	// RetainHandlingDoNotRetain do not publish retained messages on subscribe
-	// RetainHandlingDoNotRetain
+	RetainHandlingDoNotRetain
 )
 
 // SubscriptionOptions as per [MQTT-3.8.3.1]
diff --git a/mqttp/subscribe.go b/mqttp/subscribe.go
index e6b411e..ddf292f 100644
--- a/mqttp/subscribe.go
+++ b/mqttp/subscribe.go
@@ -120,6 +120,18 @@ func (msg *Subscribe) decodeMessage(from []byte) (int, error) {
 			return offset, CodeProtocolError
 		}
 
+		if msg.version == ProtocolV50 {
+			// [MQTT-3.8.3.1] value 3 of retain handling is reserved
+			if subsOptions.RetainHandling() > RetainHandlingDoNotRetain {
+				return offset, CodeProtocolError
+			}
+
+			// [MQTT-3.8.3-4] No Local is not allowed for shared subscriptions
+			if subsOptions.NL() && len(topic.shareName) != 0 {
+				return offset, CodeProtocolError
+			}
+		}
+
 		msg.topics = append(msg.topics, topic)
 
 		remLen = remLen - n - 1
-- 
2.43.0


From 05420c03c804042353ad52ac33490155e5eae6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:06 +0000
Subject: [PATCH 11/33] fix: CONNECT version 5 with empty will topic is
 rejected

---
 mqttp/connect.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mqttp/connect.go b/mqttp/connect.go
index 6b2c6be..6490760 100644
--- a/mqttp/connect.go
+++ b/mqttp/connect.go
@@ -473,6 +473,11 @@ func (msg *Connect) decodeMessage(from []byte) (int, error) {
 		}
 		offset += n
 
+		// [MQTT-4.7.3-1] topic alias is not available for will, so topic must be present
+		if len(buf) == 0 {
+			return offset, ErrInvalidTopic
+		}
+
 		if err = msg.will.SetTopic(string(buf)); err != nil {
 			return offset, err
 		}
-- 
2.43.0


From 409d4767e942de19501e1850ef4e3214fd59fa90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:15 +0000
Subject: [PATCH 12/33] fix: the size of a packet is checked before it is
 converted to 32 bits

---
 mqttp/header.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mqttp/header.go b/mqttp/header.go
index 910f187..91afb2d 100644
--- a/mqttp/header.go
+++ b/mqttp/header.go
@@ -148,6 +148,11 @@ func (h *header) SetVersion(v ProtocolVersion) {
 func (h *header) Size() (int, error) {
 	ml := h.cb.size()
 
+	// check before conversion, length of huge packets does not fit into int32
+	if ml < 0 || int64(ml) > int64(maxRemainingLength) {
+		return 0, ErrInvalidLength
+	}
+
 	if err := h.setRemainingLength(int32(ml)); err != nil {
 		return 0, err
 	}
-- 
2.43.0


From b5b406e66e1cf19f6212c6ff34802a9595f53c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:01 +0000
Subject: [PATCH 13/33] fix: PropertySet refuses values whose type or number
 does not fit the property

---
 mqttp/property.go | 61 ++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 53 insertions(+), 8 deletions(-)

diff --git a/mqttp/property.go b/mqttp/property.go
index 7bc563a..3b1db49 100644
--- a/mqttp/property.go
+++ b/mqttp/property.go
@@ -373,11 +373,56 @@ func (p *property) Set(t Type, id PropertyID, val interface{}) error {
 		return err
 	}
 
+	// list of values is allowed only if property might appear more than once
+	if isPropertyList(propertyTypeMap[id], val) && !id.DupAllowed(t) {
+		return ErrPropertyDuplicate
+	}
+
+	if !validVarInts(id, val) {
+		return ErrInvalidArgs
+	}
+
+	if p.properties == nil {
+		p.reset()
+	}
+
 	p.properties[id] = val
 
 	return nil
 }
 
+// isPropertyList check if value of given property type is list of values
+func isPropertyList(t PropertyType, val interface{}) bool {
+	switch val.(type) {
+	case []byte:
+		return t != PropertyTypeBinary
+	case []uint16, []uint32, []string, [][]byte, []StringPair:
+		return true
+	}
+
+	return false
+}
+
+// validVarInts check values of variable byte integer property fit into four bytes
+func validVarInts(id PropertyID, val interface{}) bool {
+	if propertyTypeMap[id] != PropertyTypeVarInt {
+		return true
+	}
+
+	switch v := val.(type) {
+	case uint32:
+		return v <= uint32(maxRemainingLength)
+	case []uint32:
+		for _, i := range v {
+			if i > uint32(maxRemainingLength) {
+				return false
+			}
+		}
+	}
+
+	return true
+}
+
 // Get property value
 func (p *property) Get(id PropertyID) PropertyToType {
 	if val, ok := p.properties[id]; ok {
@@ -496,7 +541,7 @@ func calcLenByte(id PropertyID, val interface{}) (int, error) {
 			l += calc()
 		}
 	default:
-		return 0, nil
+		return 0, ErrPropertyTypeMismatch
 	}
 
 	return l, nil
@@ -517,7 +562,7 @@ func calcLenShort(id PropertyID, val interface{}) (int, error) {
 			l += calc()
 		}
 	default:
-		return 0, nil
+		return 0, ErrPropertyTypeMismatch
 	}
 
 	return l, nil
@@ -538,7 +583,7 @@ func calcLenInt(id PropertyID, val interface{}) (int, error) {
 			l += calc()
 		}
 	default:
-		return 0, nil
+		return 0, ErrPropertyTypeMismatch
 	}
 
 	return l, nil
@@ -559,7 +604,7 @@ func calcLenVarInt(id PropertyID, val interface{}) (int, error) {
 			l += calc(v)
 		}
 	default:
-		return 0, nil
+		return 0, ErrPropertyTypeMismatch
 	}
 
 	return l, nil
@@ -580,7 +625,7 @@ func calcLenString(id PropertyID, val interface{}) (int, error) {
 			l += calc(len(v))
 		}
 	default:
-		return 0, nil
+		return 0, ErrPropertyTypeMismatch
 	}
 
 	return l, nil
@@ -596,12 +641,12 @@ func calcLenBinary(id PropertyID, val interface{}) (int, error) {
 	switch valueType := val.(type) {
 	case []byte:
 		l = calc(len(valueType))
-	case [][]string:
+	case [][]byte:
 		for _, v := range valueType {
 			l += calc(len(v))
 		}
 	default:
-		return 0, nil
+		return 0, ErrPropertyTypeMismatch
 	}
 
 	return l, nil
@@ -622,7 +667,7 @@ func calcLenStringPair(id PropertyID, val interface{}) (int, error) {
 			l += calc(len(v.K), len(v.V))
 		}
 	default:
-		return 0, nil
+		return 0, ErrPropertyTypeMismatch
 	}
 
 	return l, nil
-- 
2.43.0


From 8cd421e29889dd13f23552d5cab0cae7dc1b4e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:38 +0000
Subject: [PATCH 14/33] fix: SetCredentials checks its arguments, replaces both
 values and changes nothing on error

---
 mqttp/connect.go | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/mqttp/connect.go b/mqttp/connect.go
index 6490760..3764d26 100644
--- a/mqttp/connect.go
+++ b/mqttp/connect.go
@@ -162,18 +162,21 @@ func (msg *Connect) Credentials() ([]byte, []byte) {
 
 // SetCredentials set username and password
 func (msg *Connect) SetCredentials(u []byte, p []byte) error {
-	msg.connectFlags &= ^maskConnFlagUsername
-	msg.connectFlags &= ^maskConnFlagPassword
-
 	// MQTT 3.1.1 does not allow password without user name
-	if (len(msg.username) == 0 && len(msg.password) != 0) && msg.version < ProtocolV50 {
+	if (len(u) == 0 && len(p) != 0) && msg.version < ProtocolV50 {
 		return ErrInvalidArgs
 	}
 
+	if !utf8.Valid(u) {
+		return ErrInvalidUtf8
+	}
+
+	msg.connectFlags &= ^maskConnFlagUsername
+	msg.connectFlags &= ^maskConnFlagPassword
+	msg.username = nil
+	msg.password = nil
+
 	if len(u) != 0 {
-		if !utf8.Valid(u) {
-			return ErrInvalidUtf8
-		}
 		msg.connectFlags |= maskConnFlagUsername
 		msg.username = u
 	}
-- 
2.43.0


From a9ca6c008c3eb14ee93d9d79d683c6f6c1b604b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:46 +0000
Subject: [PATCH 15/33] fix: Clone makes the packet in the requested protocol
 version

---
 mqttp/publish.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mqttp/publish.go b/mqttp/publish.go
index 34060a5..45062b1 100644
--- a/mqttp/publish.go
+++ b/mqttp/publish.go
@@ -71,7 +71,7 @@ func (msg *Publish) Expired() (time.Time, uint32, bool) {
 // qos, topic, payload, retain and properties
 func (msg *Publish) Clone(v ProtocolVersion) (*Publish, error) {
 	// message version should be same as session as encode/decode depends on it
-	pkt := NewPublish(msg.version)
+	pkt := NewPublish(v)
 
 	// [MQTT-3.3.1-9]
 	// [MQTT-3.3.1-3]
-- 
2.43.0


From 0abafa7719015616c8cf8942752be9bae47e4676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:08 +0000
Subject: [PATCH 16/33] fix: extending a payload or property value of one clone
 does not write into other clones

---
 mqttp/property.go | 9 ++++++---
 mqttp/publish.go  | 3 ++-
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/mqttp/property.go b/mqttp/property.go
index 3b1db49..0990c55 100644
--- a/mqttp/property.go
+++ b/mqttp/property.go
@@ -107,7 +107,8 @@ func (t *propertyToType) AsInts() ([]uint32, error) {
 	case uint32:
 		return []uint32{v}, nil
 	case []uint32:
-		return v, nil
+		// capacity is limited as value might be shared with clones of the packet
+		return v[:len(v):len(v)], nil
 	}
 
 	return []uint32{}, ErrPropertyWrongType
@@ -131,7 +132,8 @@ func (t *propertyToType) AsStringPair() (StringPair, error) {
 
 func (t *propertyToType) AsStringPairs() ([]StringPair, error) {
 	if v, ok := t.v.([]StringPair); ok {
-		return v, nil
+		// capacity is limited as value might be shared with clones of the packet
+		return v[:len(v):len(v)], nil
 	}
 
 	return []StringPair{}, ErrPropertyWrongType
@@ -139,7 +141,8 @@ func (t *propertyToType) AsStringPairs() ([]StringPair, error) {
 
 func (t *propertyToType) AsBinary() ([]byte, error) {
 	if v, ok := t.v.([]byte); ok {
-		return v, nil
+		// capacity is limited as value might be shared with clones of the packet
+		return v[:len(v):len(v)], nil
 	}
 
 	return []byte{}, ErrPropertyWrongType
diff --git a/mqttp/publish.go b/mqttp/publish.go
index 45062b1..71ef11f 100644
--- a/mqttp/publish.go
+++ b/mqttp/publish.go
@@ -236,7 +236,8 @@ func (msg *Publish) SetTopic(v string) error {
 
 // Payload returns the application message that's part of the PUBLISH message.
 func (msg *Publish) Payload() []byte {
-	return msg.payload
+	// capacity is limited as payload might be shared with clones of the packet
+	return msg.payload[:len(msg.payload):len(msg.payload)]
 }
 
 // SetPayload sets the application message that's part of the PUBLISH message.
-- 
2.43.0


From ef3016e748f60d82e1f87dcbd2c2798965142b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:42 +0000
Subject: [PATCH 17/33] fix: high-water mark of a gauge lost to a concurrent
 lower update

---
 vlmonitoring/vlmetrics.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/vlmonitoring/vlmetrics.go b/vlmonitoring/vlmetrics.go
index bab4ec5..2ae8a4a 100644
--- a/vlmonitoring/vlmetrics.go
+++ b/vlmonitoring/vlmetrics.go
@@ -151,8 +151,12 @@ func LoadStore(src *uint64, dst *uint64) uint64 {
 
 func (c *Max) AddU64(n uint64) {
 	val := atomic.AddUint64(&c.base.uint64, n)
-	if atomic.LoadUint64(&c.Max) < val {
-		atomic.StoreUint64(&c.Max, val)
+	for {
+		max := atomic.LoadUint64(&c.Max)
+		// another thread might have recorded higher value in between
+		if max >= val || atomic.CompareAndSwapUint64(&c.Max, max, val) {
+			return
+		}
 	}
 }
 
-- 
2.43.0


From 55d8a6419c202d3f3221b2c475d8206ca9689398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:49 +0000
Subject: [PATCH 18/33] fix: remaining lifetime beyond 32 bits was cut

---
 mqttp/publish.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/mqttp/publish.go b/mqttp/publish.go
index 71ef11f..8d73b1c 100644
--- a/mqttp/publish.go
+++ b/mqttp/publish.go
@@ -15,6 +15,7 @@
 package mqttp
 
 import (
+	"math"
 	"time"
 )
 
@@ -56,7 +57,13 @@ func (msg *Publish) Expired() (time.Time, uint32, bool) {
 		now := time.Now()
 
 		if msg.expireAt.After(now) {
-			if df = uint32(msg.expireAt.Sub(now) / time.Second); df > 0 {
+			left := msg.expireAt.Sub(now) / time.Second
+			// remaining lifetime might not fit the protocol's range
+			if left > math.MaxUint32 {
+				left = math.MaxUint32
+			}
+
+			if df = uint32(left); df > 0 {
 				expired = false
 			}
 		}
-- 
2.43.0


From 0861e334b1f4f0de6a7c7212e5033504f8d2f187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:17 +0000
Subject: [PATCH 19/33] fix: CONNACK with a return code of another protocol
 version is rejected

---
 mqttp/connack.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/mqttp/connack.go b/mqttp/connack.go
index da1444c..8caa5d0 100644
--- a/mqttp/connack.go
+++ b/mqttp/connack.go
@@ -92,7 +92,13 @@ func (msg *ConnAck) decodeMessage(from []byte) (int, error) {
 	b = from[offset]
 	msg.returnCode = ReasonCode(b)
 
-	if !msg.returnCode.IsValidForType(msg.mType) {
+	// V3.1.1 [MQTT-3.2.2.3], V5.0 [MQTT-3.2.2-8] each version has its own codes
+	valid := msg.returnCode.IsValidV3()
+	if msg.version == ProtocolV50 {
+		valid = msg.returnCode.IsValidV5() && msg.returnCode.IsValidForType(msg.mType)
+	}
+
+	if !valid {
 		reason := CodeRefusedServerUnavailable
 		if msg.version == ProtocolV50 {
 			reason = CodeProtocolError
-- 
2.43.0


From bee38afd8963d3d949fc2569a0c7cf0cbe7a8369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:45 +0000
Subject: [PATCH 20/33] fix: CONNECT encodes QoS and retain of its will as they
 are when it is encoded

---
 mqttp/connect.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/mqttp/connect.go b/mqttp/connect.go
index 3764d26..39f60b5 100644
--- a/mqttp/connect.go
+++ b/mqttp/connect.go
@@ -189,6 +189,22 @@ func (msg *Connect) SetCredentials(u []byte, p []byte) error {
 	return nil
 }
 
+// encodedFlags returns connect flags with QoS and retain of the will as they are now,
+// will might have been changed after it was set
+func (msg *Connect) encodedFlags() byte {
+	if !msg.willFlag() {
+		return msg.connectFlags
+	}
+
+	flags := msg.connectFlags & ^(maskConnFlagWillQos | maskConnFlagWillRetain)
+	flags |= byte(msg.will.QoS()) << offsetConnFlagWillQoS
+	if msg.will.Retain() {
+		flags |= maskConnFlagWillRetain
+	}
+
+	return flags
+}
+
 // willFlag returns the bit that specifies whether a Will Message should be stored
 // on the server. If the Will Flag is set to 1 this indicates that, if the Accept
 // request is accepted, a Will Message MUST be stored on the Server and associated
@@ -240,7 +256,7 @@ func (msg *Connect) encodeMessage(to []byte) (int, error) {
 
 	// V3.1.1 [MQTT-3.1.2.3]
 	// V5.0   [MQTT-3.1.2.3]
-	to[offset] = msg.connectFlags
+	to[offset] = msg.encodedFlags()
 	offset++
 
 	// V3.1.1 [MQTT-3.1.2.10]
-- 
2.43.0


From ebb277a6d9d9d74ca351c5844836a9f75fdff728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:22 +0000
Subject: [PATCH 21/33] fix: Get reads a counter or gauge atomically

---
 vlmonitoring/vlmetrics.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vlmonitoring/vlmetrics.go b/vlmonitoring/vlmetrics.go
index 2ae8a4a..1c551b4 100644
--- a/vlmonitoring/vlmetrics.go
+++ b/vlmonitoring/vlmetrics.go
@@ -125,7 +125,7 @@ func (c *base) Load() uint64 {
 }
 
 func (c *base) Get() uint64 {
-	return c.uint64
+	return atomic.LoadUint64(&c.uint64)
 }
 
 func (c *Max) Load() Max {
-- 
2.43.0


From 9262e79cf1bc044c82c5cd3daa632b60611d5bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:22 +0000
Subject: [PATCH 22/33] fix: reject null characters in string properties

---
 mqttp/property.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/mqttp/property.go b/mqttp/property.go
index 0990c55..98b27a7 100644
--- a/mqttp/property.go
+++ b/mqttp/property.go
@@ -1,6 +1,7 @@
 package mqttp
 
 import (
+	"bytes"
 	"encoding/binary"
 	"unicode/utf8"
 )
@@ -737,11 +738,16 @@ func decodeVarInt(p *property, id PropertyID, from []byte) (int, error) {
 	return offset, nil
 }
 
+// validString check string is well-formed UTF-8 without null characters, as per [MQTT-1.5.4]
+func validString(v []byte) bool {
+	return utf8.Valid(v) && bytes.IndexByte(v, 0) < 0
+}
+
 func decodeString(p *property, id PropertyID, from []byte) (int, error) {
 	offset := 0
 
 	v, n, err := ReadLPBytes(from[offset:])
-	if err != nil || !utf8.Valid(v) {
+	if err != nil || !validString(v) {
 		return offset, CodeMalformedPacket
 	}
 
@@ -760,14 +766,14 @@ func decodeStringPair(p *property, id PropertyID, from []byte) (int, error) {
 
 	k, n, err = ReadLPBytes(from)
 	offset := n
-	if err != nil || !utf8.Valid(k) {
+	if err != nil || !validString(k) {
 		return offset, CodeMalformedPacket
 	}
 
 	v, n, err = ReadLPBytes(from[offset:])
 	offset += n
 
-	if err != nil || !utf8.Valid(v) {
+	if err != nil || !validString(v) {
 		return offset, CodeMalformedPacket
 	}
 
-- 
2.43.0


From 45d7bf0aaf8547d2dd0cd434477f3d2710a878b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:44 +0000
Subject: [PATCH 23/33] fix: report reasons of version 5 for version 5
 SUBSCRIBE and UNSUBSCRIBE

---
 mqttp/subscribe.go   | 4 ++--
 mqttp/unsubscribe.go | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/mqttp/subscribe.go b/mqttp/subscribe.go
index ddf292f..57ac3e5 100644
--- a/mqttp/subscribe.go
+++ b/mqttp/subscribe.go
@@ -97,7 +97,7 @@ func (msg *Subscribe) decodeMessage(from []byte) (int, error) {
 		// [MQTT-3.8.3-1]
 		if !utf8.Valid(t) {
 			rejectReason := CodeProtocolError
-			if msg.version <= ProtocolV50 {
+			if msg.version < ProtocolV50 {
 				rejectReason = CodeRefusedServerUnavailable
 			}
 			return 0, rejectReason
@@ -140,7 +140,7 @@ func (msg *Subscribe) decodeMessage(from []byte) (int, error) {
 	// [MQTT-3.8.3-3]
 	if len(msg.topics) == 0 {
 		rejectReason := CodeProtocolError
-		if msg.version <= ProtocolV50 {
+		if msg.version < ProtocolV50 {
 			rejectReason = CodeRefusedServerUnavailable
 		}
 		return 0, rejectReason
diff --git a/mqttp/unsubscribe.go b/mqttp/unsubscribe.go
index 1998202..d5bdfde 100644
--- a/mqttp/unsubscribe.go
+++ b/mqttp/unsubscribe.go
@@ -100,7 +100,7 @@ func (msg *UnSubscribe) decodeMessage(from []byte) (int, error) {
 	// [MQTT-3.10.3-2]
 	if len(msg.topics) == 0 {
 		rejectReason := CodeProtocolError
-		if msg.version <= ProtocolV50 {
+		if msg.version < ProtocolV50 {
 			rejectReason = CodeRefusedServerUnavailable
 		}
 		return 0, rejectReason
-- 
2.43.0


From 4471a0e6b8dbe7405447df9ba47382c6ce059981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:16 +0000
Subject: [PATCH 24/33] fix: do not replace the reason a packet is rejected for
 by malformed packet

---
 mqttp/header.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/mqttp/header.go b/mqttp/header.go
index 91afb2d..0b2be7f 100644
--- a/mqttp/header.go
+++ b/mqttp/header.go
@@ -322,10 +322,25 @@ func (h *header) decode(from []byte) (int, error) {
 		offset += msgTotal
 	}
 
+	rejectCode := CodeMalformedPacket
+	if h.mType == CONNECT && h.version < ProtocolV50 {
+		rejectCode = CodeRefusedServerUnavailable
+	}
+
+	// packet is complete here, field which goes beyond its end makes it malformed
+	if err == ErrInsufficientDataSize {
+		err = rejectCode
+	}
+
+	// peer can be told why packet has been rejected
+	if err != nil && (h.mType == CONNECT || h.version == ProtocolV50) {
+		return offset, err
+	}
+
 	// this is malformed packet if packed was decoded but there is still
 	// payload remaining
 	if int32(offset-fhLen) != h.remLen {
-		return offset, CodeMalformedPacket
+		return offset, rejectCode
 	}
 
 	return offset, err
-- 
2.43.0


From 69ceed4ff71ed16966b9f5f142a969f52ba03442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:55 +0000
Subject: [PATCH 25/33] fix: CONNACK refuses return codes of another protocol
 version

---
 mqttp/connack.go | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/mqttp/connack.go b/mqttp/connack.go
index 8caa5d0..e739891 100644
--- a/mqttp/connack.go
+++ b/mqttp/connack.go
@@ -61,7 +61,7 @@ func (msg *ConnAck) ReturnCode() ReasonCode {
 
 // SetReturnCode of conn
 func (msg *ConnAck) SetReturnCode(ret ReasonCode) error {
-	if !ret.IsValidForType(msg.Type()) {
+	if !msg.validReturnCode(ret) {
 		return ErrInvalidReturnCode
 	}
 
@@ -70,6 +70,16 @@ func (msg *ConnAck) SetReturnCode(ret ReasonCode) error {
 	return nil
 }
 
+// validReturnCode check either code is defined for protocol version of the message
+// V3.1.1 [MQTT-3.2.2.3], V5.0 [MQTT-3.2.2-8] each version has its own codes
+func (msg *ConnAck) validReturnCode(c ReasonCode) bool {
+	if msg.version == ProtocolV50 {
+		return c.IsValidV5() && c.IsValidForType(msg.mType)
+	}
+
+	return c.IsValidV3()
+}
+
 func (msg *ConnAck) decodeMessage(from []byte) (int, error) {
 	offset := 0
 
@@ -92,13 +102,7 @@ func (msg *ConnAck) decodeMessage(from []byte) (int, error) {
 	b = from[offset]
 	msg.returnCode = ReasonCode(b)
 
-	// V3.1.1 [MQTT-3.2.2.3], V5.0 [MQTT-3.2.2-8] each version has its own codes
-	valid := msg.returnCode.IsValidV3()
-	if msg.version == ProtocolV50 {
-		valid = msg.returnCode.IsValidV5() && msg.returnCode.IsValidForType(msg.mType)
-	}
-
-	if !valid {
+	if !msg.validReturnCode(msg.returnCode) {
 		reason := CodeRefusedServerUnavailable
 		if msg.version == ProtocolV50 {
 			reason = CodeProtocolError
-- 
2.43.0


From 15b270b99b1d95a08d183991998f7db2ef1a6122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:54 +0000
Subject: [PATCH 26/33] fix: SUBSCRIBE is not encoded without topics or with
 options its version does not have

---
 mqttp/subscribe.go | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/mqttp/subscribe.go b/mqttp/subscribe.go
index 57ac3e5..bafb49f 100644
--- a/mqttp/subscribe.go
+++ b/mqttp/subscribe.go
@@ -149,12 +149,38 @@ func (msg *Subscribe) decodeMessage(from []byte) (int, error) {
 	return offset, nil
 }
 
+// validOps check subscription options are allowed by protocol version of the message
+func (msg *Subscribe) validOps(t *Topic) bool {
+	if msg.version < ProtocolV50 {
+		return t.ops.Raw()&maskSubscriptionReservedV3 == 0
+	}
+
+	// [MQTT-3.8.3-5]
+	if t.ops.Raw()&maskSubscriptionReservedV5 != 0 || t.ops.RetainHandling() > RetainHandlingDoNotRetain {
+		return false
+	}
+
+	// [MQTT-3.8.3-4] No Local is not allowed for shared subscriptions
+	return !t.ops.NL() || len(t.shareName) == 0
+}
+
 func (msg *Subscribe) encodeMessage(to []byte) (int, error) {
 	// [MQTT-2.3.1]
 	if len(msg.packetID) == 0 {
 		return 0, ErrPackedIDZero
 	}
 
+	// [MQTT-3.8.3-3]
+	if len(msg.topics) == 0 {
+		return 0, ErrInvalidLength
+	}
+
+	for _, t := range msg.topics {
+		if !msg.validOps(t) {
+			return 0, ErrInvalidArgs
+		}
+	}
+
 	offset := msg.encodePacketID(to)
 
 	// V5.0   [MQTT-3.1.2.11]
-- 
2.43.0


From d5e5130cd3a3441aeffe2c9de597635dfdfc6411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:01 +0000
Subject: [PATCH 27/33] fix: string properties are checked when set

---
 mqttp/property.go | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/mqttp/property.go b/mqttp/property.go
index 98b27a7..ea15099 100644
--- a/mqttp/property.go
+++ b/mqttp/property.go
@@ -386,6 +386,10 @@ func (p *property) Set(t Type, id PropertyID, val interface{}) error {
 		return ErrInvalidArgs
 	}
 
+	if !validStrings(val) {
+		return ErrInvalidUtf8
+	}
+
 	if p.properties == nil {
 		p.reset()
 	}
@@ -407,6 +411,30 @@ func isPropertyList(t PropertyType, val interface{}) bool {
 	return false
 }
 
+// validStrings check string values of property are allowed by [MQTT-1.5.4]
+func validStrings(val interface{}) bool {
+	switch v := val.(type) {
+	case string:
+		return validString([]byte(v))
+	case []string:
+		for _, s := range v {
+			if !validString([]byte(s)) {
+				return false
+			}
+		}
+	case StringPair:
+		return validString([]byte(v.K)) && validString([]byte(v.V))
+	case []StringPair:
+		for _, p := range v {
+			if !validString([]byte(p.K)) || !validString([]byte(p.V)) {
+				return false
+			}
+		}
+	}
+
+	return true
+}
+
 // validVarInts check values of variable byte integer property fit into four bytes
 func validVarInts(id PropertyID, val interface{}) bool {
 	if propertyTypeMap[id] != PropertyTypeVarInt {
-- 
2.43.0


From 37010982596b5d6815fb2befe8735126f05f8f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:08 +0000
Subject: [PATCH 28/33] fix: acknowledgements and DISCONNECT are not encoded
 with foreign reason codes

---
 mqttp/disconnect.go | 4 ++++
 mqttp/puback.go     | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/mqttp/disconnect.go b/mqttp/disconnect.go
index d9a256b..3fbdae0 100644
--- a/mqttp/disconnect.go
+++ b/mqttp/disconnect.go
@@ -91,6 +91,10 @@ func (msg *Disconnect) encodeMessage(to []byte) (int, error) {
 
 	var err error
 	if msg.version == ProtocolV50 {
+		if !msg.reasonCode.IsValidForType(msg.mType) {
+			return 0, ErrInvalidReturnCode
+		}
+
 		pLen := msg.properties.FullLen()
 		// The Reason Code and Property Length can be omitted if the Reason Code is 0x00 (Normal disconnection)
 		// and there are no Properties. In this case the DISCONNECT has a Remaining Length of 0
diff --git a/mqttp/puback.go b/mqttp/puback.go
index b73dd04..51fcb0a 100644
--- a/mqttp/puback.go
+++ b/mqttp/puback.go
@@ -114,6 +114,10 @@ func (msg *Ack) encodeMessage(to []byte) (int, error) {
 		return 0, ErrPackedIDZero
 	}
 
+	if msg.version == ProtocolV50 && !msg.reasonCode.IsValidForType(msg.mType) {
+		return 0, ErrInvalidReturnCode
+	}
+
 	offset := msg.encodePacketID(to)
 
 	var err error
-- 
2.43.0


From c963df39da086494098519927864c56a6019f78f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:15 +0000
Subject: [PATCH 29/33] fix: PUBLISH is not encoded without both topic and
 alias

---
 mqttp/publish.go | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/mqttp/publish.go b/mqttp/publish.go
index 8d73b1c..13616b2 100644
--- a/mqttp/publish.go
+++ b/mqttp/publish.go
@@ -326,17 +326,8 @@ func (msg *Publish) decodeMessage(from []byte) (int, error) {
 		}
 
 		// if packet does not have topic set there must be topic alias set in properties
-		if len(msg.topic) == 0 {
-			reject := CodeProtocolError
-			if prop := msg.PropertyGet(PropertyTopicAlias); prop != nil {
-				if val, ok := prop.AsShort(); ok == nil && val > 0 {
-					reject = CodeSuccess
-				}
-			}
-
-			if reject != CodeSuccess {
-				return offset, reject
-			}
+		if len(msg.topic) == 0 && !msg.hasTopicAlias() {
+			return offset, CodeProtocolError
 		}
 	}
 
@@ -375,11 +366,26 @@ func (msg *Publish) decodeMessage(from []byte) (int, error) {
 	return offset, nil
 }
 
+// hasTopicAlias check if topic of the message might be found by alias
+func (msg *Publish) hasTopicAlias() bool {
+	if prop := msg.PropertyGet(PropertyTopicAlias); prop != nil {
+		val, err := prop.AsShort()
+		return err == nil && val > 0
+	}
+
+	return false
+}
+
 func (msg *Publish) encodeMessage(to []byte) (int, error) {
 	if !ValidTopic([]byte(msg.topic)) {
 		return 0, ErrInvalidTopic
 	}
 
+	// [MQTT-3.3.2-8] topic might be absent only if there is topic alias
+	if len(msg.topic) == 0 && (msg.version < ProtocolV50 || !msg.hasTopicAlias()) {
+		return 0, ErrInvalidTopic
+	}
+
 	if !msg.QoS().IsValid() {
 		return 0, ErrInvalidQoS
 	}
-- 
2.43.0


From bb696cf24e6c865c11070a176ef84fa19f8498ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:22 +0000
Subject: [PATCH 30/33] fix: PUBLISH is not encoded with will delay

---
 mqttp/publish.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mqttp/publish.go b/mqttp/publish.go
index 13616b2..746d951 100644
--- a/mqttp/publish.go
+++ b/mqttp/publish.go
@@ -386,6 +386,11 @@ func (msg *Publish) encodeMessage(to []byte) (int, error) {
 		return 0, ErrInvalidTopic
 	}
 
+	// [MQTT-2.2.2.2] PropertyWillDelayInterval allowed only for Will
+	if _, ok := msg.properties.properties[PropertyWillDelayInterval]; ok && msg.version == ProtocolV50 {
+		return 0, ErrPropertyPacketTypeMismatch
+	}
+
 	if !msg.QoS().IsValid() {
 		return 0, ErrInvalidQoS
 	}
-- 
2.43.0


From 70be726300177aa76fe9246402a7a943b193e0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:30 +0000
Subject: [PATCH 31/33] fix: user name is checked as decoder does

---
 mqttp/connect.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mqttp/connect.go b/mqttp/connect.go
index 39f60b5..9bb1758 100644
--- a/mqttp/connect.go
+++ b/mqttp/connect.go
@@ -167,7 +167,8 @@ func (msg *Connect) SetCredentials(u []byte, p []byte) error {
 		return ErrInvalidArgs
 	}
 
-	if !utf8.Valid(u) {
+	// [MQTT-3.1.3-11]
+	if !IsValidUTF(u) {
 		return ErrInvalidUtf8
 	}
 
-- 
2.43.0


From 8d6d0ccf9f424d5ca7ebf694dfb8041c1e3e4136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:37 +0000
Subject: [PATCH 32/33] fix: CONNECT without client id is not encoded without
 clean session

---
 mqttp/connect.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/mqttp/connect.go b/mqttp/connect.go
index 9bb1758..7c34f3c 100644
--- a/mqttp/connect.go
+++ b/mqttp/connect.go
@@ -238,11 +238,25 @@ func (msg *Connect) passwordFlag() bool {
 	return (msg.connectFlags & maskConnFlagPassword) != 0
 }
 
+// validate check message does not have anything peer must refuse
+func (msg *Connect) validate() error {
+	// [MQTT-3.1.3-7] client without an id must ask for clean session
+	if msg.version < ProtocolV50 && len(msg.clientID) == 0 && !msg.IsClean() {
+		return ErrInvalidArgs
+	}
+
+	return nil
+}
+
 func (msg *Connect) encodeMessage(to []byte) (int, error) {
 	if _, ok := SupportedVersions[msg.version]; !ok {
 		return 0, ErrInvalidProtocolVersion
 	}
 
+	if err := msg.validate(); err != nil {
+		return 0, err
+	}
+
 	// V3.1.1 [MQTT-3.1.2.1]
 	// V5.0   [MQTT-3.1.2.1]
 	offset, err := WriteLPBytes(to, []byte(SupportedVersions[msg.version]))
-- 
2.43.0


From 91df9eb2a7b6cc5c3acedd37bae7f18ae2cd2bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:44 +0000
Subject: [PATCH 33/33] fix: will is not encoded with properties it must not
 have

---
 mqttp/connect.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/mqttp/connect.go b/mqttp/connect.go
index 7c34f3c..2db172f 100644
--- a/mqttp/connect.go
+++ b/mqttp/connect.go
@@ -245,6 +245,24 @@ func (msg *Connect) validate() error {
 		return ErrInvalidArgs
 	}
 
+	if !msg.willFlag() {
+		return nil
+	}
+
+	// [MQTT-4.7.3-1] topic alias is not available for will, so topic must be present
+	if len(msg.will.topic) == 0 {
+		return ErrInvalidTopic
+	}
+
+	if msg.version >= ProtocolV50 {
+		// [MQTT-2.2.2.2]
+		for _, id := range []PropertyID{PropertySubscriptionIdentifier, PropertyTopicAlias} {
+			if _, ok := msg.will.properties.properties[id]; ok {
+				return ErrPropertyPacketTypeMismatch
+			}
+		}
+	}
+
 	return nil
 }
 
-- 
2.43.0

