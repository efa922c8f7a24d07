From eadb830d7cad0e3728cc93dddfe438148b71deaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:48 +0000
Subject: [PATCH 01/27] fix: BufferedOut field width overran the buffer and
 truncated longer numbers

---
 BufferedOut.cpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/BufferedOut.cpp b/BufferedOut.cpp
index a66c68c..2384d91 100644
--- a/BufferedOut.cpp
+++ b/BufferedOut.cpp
@@ -42,18 +42,24 @@ namespace embedded
 
 void BufferedOut::addPadding(const char* p)
 {
-    auto realSize = p - pos;
-    if (realSize < integerWidth)
+    const auto realSize = p - pos;
+    const auto availableSize = dataBuf.end() - pos;
+    const auto fieldSize = integerWidth < availableSize ? integerWidth : availableSize;
+    if (realSize < fieldSize)
     {
-        memmove(pos + integerWidth - realSize, pos, realSize);
-        auto paddingSize = integerWidth - realSize;
+        memmove(pos + fieldSize - realSize, pos, realSize);
+        auto paddingSize = fieldSize - realSize;
         auto paddingPos = pos;
         while (paddingSize-- > 0)
         {
             *(paddingPos++) = fillChar;
         }
+        pos += fieldSize;
+    }
+    else
+    {
+        pos += realSize;
     }
-    pos += integerWidth;
 }
 
 BufferedOut &BufferedOut::operator<<(const char* str)
-- 
2.43.0


From e7a3e07b66e3b35846923a81b82796348cb8b4fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:49 +0000
Subject: [PATCH 02/27] fix: BufferedOut wrote a hex byte past the end of a
 full buffer

---
 BufferedOut.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/BufferedOut.cpp b/BufferedOut.cpp
index 2384d91..26a37f1 100644
--- a/BufferedOut.cpp
+++ b/BufferedOut.cpp
@@ -161,6 +161,10 @@ BufferedOut &BufferedOut::operator<<(ConstBytesView span)
 
 BufferedOut &BufferedOut::operator<<(unsigned char b)
 {
+    if (dataBuf.end() - pos < 2)
+    {
+        return *this;
+    }
     char digits[] = "0123456789ABCDEF";
     *(pos++) = digits[(b & 0xF0u) >> 4];
     *(pos++) = digits[b & 0xFu];
-- 
2.43.0


From 41884e56c24fe6f396f51dde50f698637ec21a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:50 +0000
Subject: [PATCH 03/27] fix: BufferedOut float output lost the sign of (-1, 0)
 and exposed stale bytes when out of room

---
 BufferedOut.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/BufferedOut.cpp b/BufferedOut.cpp
index 26a37f1..79d625c 100644
--- a/BufferedOut.cpp
+++ b/BufferedOut.cpp
@@ -9,8 +9,18 @@ namespace
 char* toChars(char* first, char* last, float val, unsigned int precision) noexcept
 {
     int n = int(val);
-    auto [pos, ec] = std::to_chars(first, last, n);
-    if (ec == std::errc {} && precision > 0 && pos < last)
+    auto start = first;
+    if (val < 0 && n == 0 && precision > 0 && start != last)
+    {
+        // to_chars would lose the sign of the negative fraction
+        *(start++) = '-';
+    }
+    auto [pos, ec] = std::to_chars(start, last, n);
+    if (ec != std::errc {})
+    {
+        return first;
+    }
+    if (precision > 0 && pos < last)
     {
         float f = std::abs(val) - std::abs(float(n));
         *(pos++) = '.';
-- 
2.43.0


From 6f3004a84d86feae80e8205ca0fe542c24eafb6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:52 +0000
Subject: [PATCH 04/27] fix: BufferedOut::data() truncated the size of texts of
 64 KiB and more

---
 BufferedOut.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BufferedOut.h b/BufferedOut.h
index f7d791b..fccea3b 100644
--- a/BufferedOut.h
+++ b/BufferedOut.h
@@ -58,8 +58,8 @@ public:
         return *this;
     }
 
-    BytesView data() { return { (unsigned char*)(dataBuf.begin()), static_cast<uint16_t>(size()) }; }
-    ConstBytesView data() const { return { (unsigned char*)(dataBuf.begin()), static_cast<uint16_t>(size()) }; }
+    BytesView data() { return { (unsigned char*)(dataBuf.begin()), size() }; }
+    ConstBytesView data() const { return { (unsigned char*)(dataBuf.begin()), size() }; }
     std::string_view asStringView() const { return { dataBuf.begin(), size() }; }
 
     decltype(dataBuf)::size_type size() const { return pos - dataBuf.begin(); }
-- 
2.43.0


From bdf911cb348a4bb1deaf08b6c0b797013d169196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:24 +0000
Subject: [PATCH 05/27] fix: PersistentStorage::set truncated long names, so
 they were lost or replaced another object

---
 PersistentStorage.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/PersistentStorage.h b/PersistentStorage.h
index 886370b..1179bde 100644
--- a/PersistentStorage.h
+++ b/PersistentStorage.h
@@ -50,6 +50,11 @@ public:
     template<typename T>
     bool set(std::string_view idx, const T &object)
     {
+        if (idx.size() > std::tuple_size_v<decltype(NodeDescriptor::idx)>)
+        {
+            // the name doesn't fit into the descriptor
+            return false;
+        }
         if (const auto pos = getIdx<T>(idx); pos != wrongPos)
         {
             auto &node = getNode<T>(pos);
-- 
2.43.0


From 13d26649addf633e49d367412827b58d2e165cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:26 +0000
Subject: [PATCH 06/27] fix: PersistentStorage accepted objects whose record
 size doesn't fit into the descriptor

---
 PersistentStorage.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/PersistentStorage.h b/PersistentStorage.h
index 1179bde..4d089bb 100644
--- a/PersistentStorage.h
+++ b/PersistentStorage.h
@@ -62,6 +62,7 @@ public:
             return true;
         }
         constexpr auto recordSize = sizeof(Node<T>);
+        static_assert(recordSize <= std::numeric_limits<decltype(NodeDescriptor::size)>::max(), "Object is too large");
         if (free_head_ + recordSize > buffer_.size())
         {
             // no more free nodes
-- 
2.43.0


From 0c947abaddc67aebda9c3e536a265a3982a63176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:27 +0000
Subject: [PATCH 07/27] fix: EmbeddedFont::getBitmap read past the glyph table
 for the last glyph

---
 graphics/EmbeddedFont.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphics/EmbeddedFont.cpp b/graphics/EmbeddedFont.cpp
index 5007c81..c4f9c17 100644
--- a/graphics/EmbeddedFont.cpp
+++ b/graphics/EmbeddedFont.cpp
@@ -23,7 +23,7 @@ EmbeddedFont::CharacterBitmap EmbeddedFont::getBitmap(const char symbol) const
     const auto &glyph = fontDescriptor.glyph[pos];
     const auto bitmapBegin = fontDescriptor.bitmap.begin() + glyph.bitmapOffset;
     ++pos;
-    const auto bitmapEnd = (pos != fontDescriptor.glyph.size()) ?
+    const auto bitmapEnd = (pos == fontDescriptor.glyph.size()) ?
                            fontDescriptor.bitmap.end() :
                            fontDescriptor.bitmap.begin() + fontDescriptor.glyph[pos].bitmapOffset;
     return EmbeddedFont::CharacterBitmap { .bitmap { bitmapBegin, static_cast<uint16_t>(bitmapEnd - bitmapBegin) },
-- 
2.43.0


From 86deeedfb65c21eb9e5404e6c9ad94580edff20e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:48 +0000
Subject: [PATCH 08/27] fix: EmbeddedFont couldn't reach the glyphs of the
 codes 0xA0-0xFF where char is signed

---
 graphics/EmbeddedFont.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/graphics/EmbeddedFont.cpp b/graphics/EmbeddedFont.cpp
index c4f9c17..6b56adb 100644
--- a/graphics/EmbeddedFont.cpp
+++ b/graphics/EmbeddedFont.cpp
@@ -6,12 +6,14 @@ namespace embedded::fonts
 
 EmbeddedFont::CharacterBitmap EmbeddedFont::getBitmap(const char symbol) const
 {
-    if (symbol < fontDescriptor.first || symbol > fontDescriptor.last)
+    // char may be signed, but the codes are not
+    const auto code = static_cast<uint8_t>(symbol);
+    if (code < fontDescriptor.first || code > fontDescriptor.last)
     {
         return getBitmap(fontDescriptor.first);
     }
-    auto pos = symbol - fontDescriptor.first;
-    if (symbol > '~')
+    auto pos = code - fontDescriptor.first;
+    if (code > '~')
     {
         pos -= (0xA0 - '~' - 1);
     }
-- 
2.43.0


From 56df9bd87ff66aa0df58f6a8b19828e4494a61bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:49 +0000
Subject: [PATCH 09/27] fix: EmbeddedFont gave other characters' glyphs to the
 codes omitted from the table

---
 graphics/EmbeddedFont.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/graphics/EmbeddedFont.cpp b/graphics/EmbeddedFont.cpp
index 6b56adb..27afe2e 100644
--- a/graphics/EmbeddedFont.cpp
+++ b/graphics/EmbeddedFont.cpp
@@ -8,7 +8,8 @@ EmbeddedFont::CharacterBitmap EmbeddedFont::getBitmap(const char symbol) const
 {
     // char may be signed, but the codes are not
     const auto code = static_cast<uint8_t>(symbol);
-    if (code < fontDescriptor.first || code > fontDescriptor.last)
+    const bool isOmitted = code > '~' && code < 0xA0;
+    if (code < fontDescriptor.first || code > fontDescriptor.last || isOmitted)
     {
         return getBitmap(fontDescriptor.first);
     }
-- 
2.43.0


From 444721cf5b69f8b6d927ca7a7998c0bb1192e762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:09 +0000
Subject: [PATCH 10/27] fix: EmbeddedFont::getTextBounds added glyph sizes
 instead of advances, so texts didn't fit

---
 graphics/EmbeddedFont.cpp | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/graphics/EmbeddedFont.cpp b/graphics/EmbeddedFont.cpp
index 27afe2e..7bbc869 100644
--- a/graphics/EmbeddedFont.cpp
+++ b/graphics/EmbeddedFont.cpp
@@ -42,21 +42,20 @@ Rect<int> EmbeddedFont::getTextBounds(std::string_view view) const
     {
         int maxBottom = -255;
         int minTop = 0;
+        int minLeft = 255;
+        int maxRight = -255;
+        int penX = 0;
         for (std::size_t i = 0; i < view.size(); ++i)
         {
             const auto& bitmap = getBitmap(view[i]);
-            if (i == 0)
-            {
-                result.topLeft.x = - bitmap.offset.width;
-                result.size.width = bitmap.effectiveSize.width;
-            }
-            else
-            {
-                result.size.width += (i < view.size() - 1) ? bitmap.width : bitmap.effectiveSize.width;
-            }
+            minLeft = std::min(minLeft, penX + bitmap.offset.width);
+            maxRight = std::max(maxRight, penX + bitmap.offset.width + bitmap.effectiveSize.width);
+            penX += bitmap.width;
             maxBottom = std::max(maxBottom, (int)bitmap.offset.height + bitmap.effectiveSize.height);
             minTop = std::min(minTop, (int)bitmap.offset.height);
         }
+        result.size.width = maxRight - minLeft;
+        result.topLeft.x = - minLeft;
         result.size.height = maxBottom - minTop;
         result.topLeft.y = - minTop;
     }
-- 
2.43.0


From 61770eeca31d143261682bbd0e5f66ca9a05da7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:11 +0000
Subject: [PATCH 11/27] fix: SimpleFrameBuffer reported a wrong width and
 couldn't be built for some depths and widths

---
 graphics/SimpleFrameBuffer.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/graphics/SimpleFrameBuffer.h b/graphics/SimpleFrameBuffer.h
index e56f72c..2087247 100644
--- a/graphics/SimpleFrameBuffer.h
+++ b/graphics/SimpleFrameBuffer.h
@@ -9,8 +9,8 @@ public:
     explicit SimpleFrameBuffer() noexcept
     {
         static_assert(colorDepth == 1 || colorDepth == 2 || colorDepth == 4 || colorDepth == 8 || colorDepth == 16 || colorDepth == 24 || colorDepth == 32, "Invalid color depth");
-        static_assert(width * (1 << (colorDepth - 1)) % 8 == 0, "Width must be byte-aligned");
-        selectedColor = (1 << colorDepth) - 1;
+        static_assert(width * colorDepth % 8 == 0, "Width must be byte-aligned");
+        selectedColor = colorMask;
     }
     int getWidth() const override { return effectiveWidth; }
     int getHeight() const override { return height; }
@@ -33,7 +33,7 @@ public:
 
     void setColor(uint32_t color) override
     {
-        selectedColor = color & ((1 << colorDepth) - 1);
+        selectedColor = color & colorMask;
     }
 
     void drawPixel(int posX, int posY, uint32_t color)
@@ -88,7 +88,8 @@ public:
     }
 private:
     static constexpr int bitsPerPixel = colorDepth;
-    static constexpr int effectiveWidth = (width * bitsPerPixel / 8) * 8;
+    static constexpr uint32_t colorMask = 0xFFFFFFFFu >> (32 - bitsPerPixel);
+    static constexpr int effectiveWidth = width;
     static constexpr size_t bufferSize = effectiveWidth * height * bitsPerPixel / 8;
     std::array<uint8_t, bufferSize> buffer;
     uint32_t selectedColor;
-- 
2.43.0


From 54294b0fc3ef50d0df0d9ac4b2e03c2968213348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:28 +0000
Subject: [PATCH 12/27] fix: EncodingConverter dropped 4-byte sequences

---
 gfx-font-converter/EncodingConverter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gfx-font-converter/EncodingConverter.cpp b/gfx-font-converter/EncodingConverter.cpp
index b3f435a..9f20f9a 100644
--- a/gfx-font-converter/EncodingConverter.cpp
+++ b/gfx-font-converter/EncodingConverter.cpp
@@ -31,7 +31,7 @@ std::string EncodingConverter::convert(char symbol) {
     {
         if (errno == EINVAL)
         {
-            inSize = (inSize + 1) % 3;
+            inSize = (inSize + 1) % sizeof(buf);
         }
         else
         {
@@ -56,7 +56,7 @@ uint32_t EncodingConverter::convertRaw(char symbol) {
     {
         if (errno == EINVAL)
         {
-            inSize = (inSize + 1) % 3;
+            inSize = (inSize + 1) % sizeof(buf);
         }
         else
         {
-- 
2.43.0


From 58fb3f78213e4b5b5c4743beb39922b36cdc80f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:29 +0000
Subject: [PATCH 13/27] fix: EncodingConverter kept the bytes of a converted
 multibyte sequence

---
 gfx-font-converter/EncodingConverter.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gfx-font-converter/EncodingConverter.cpp b/gfx-font-converter/EncodingConverter.cpp
index 9f20f9a..be63007 100644
--- a/gfx-font-converter/EncodingConverter.cpp
+++ b/gfx-font-converter/EncodingConverter.cpp
@@ -39,6 +39,7 @@ std::string EncodingConverter::convert(char symbol) {
         }
         return {};
     }
+    inSize = 0;
     return {outBuf, sizeof(outBuf) - outBytesLeft};
 }
 
@@ -64,5 +65,6 @@ uint32_t EncodingConverter::convertRaw(char symbol) {
         }
         return {};
     }
+    inSize = 0;
     return outBuf.result;
 }
-- 
2.43.0


From 28a3355c173ebed78a4ed30a20d05645a608d4c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:29 +0000
Subject: [PATCH 14/27] fix: ESP32 SpiBus::release never freed the bus and kept
 the removed device

---
 esp32-esp-idf/SpiBus.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esp32-esp-idf/SpiBus.cpp b/esp32-esp-idf/SpiBus.cpp
index 29a7a50..57a0530 100644
--- a/esp32-esp-idf/SpiBus.cpp
+++ b/esp32-esp-idf/SpiBus.cpp
@@ -79,7 +79,7 @@ bool embedded::SpiBus::release()
 {
     if (spiDevice != nullptr)
     {
-        if (spi_bus_remove_device(spiDevice))
+        if (spi_bus_remove_device(spiDevice) == ESP_OK)
         {
             spiDevice = nullptr;
             return spi_bus_free(static_cast<spi_host_device_t>(spiBusNumber)) == ESP_OK;
-- 
2.43.0


From 2f28dfcad12969e6b3f21181ff168e34e2dabd2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:29 +0000
Subject: [PATCH 15/27] fix: ESP32 AnalogPin never released the ADC unit, so
 only the first read worked

---
 esp32-esp-idf/AnalogPin.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/esp32-esp-idf/AnalogPin.cpp b/esp32-esp-idf/AnalogPin.cpp
index a3393e3..2d146b0 100644
--- a/esp32-esp-idf/AnalogPin.cpp
+++ b/esp32-esp-idf/AnalogPin.cpp
@@ -49,9 +49,10 @@ int singleReadADC(const adc_unit_t unit, adc_channel_t channel)
         {
             if (adc_oneshot_read(handle, channel, &result) != ESP_OK)
             {
-                return -1;
+                result = -1;
             }
         }
+        adc_oneshot_del_unit(handle);
     }
     return result;
 }
-- 
2.43.0


From d08432710a9ef8e9893f1085208de33c8bf01c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:05 +0000
Subject: [PATCH 16/27] fix: ESP32 SpiBus::init left the bus allocated when the
 device couldn't be added

---
 esp32-esp-idf/SpiBus.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/esp32-esp-idf/SpiBus.cpp b/esp32-esp-idf/SpiBus.cpp
index 57a0530..caa5499 100644
--- a/esp32-esp-idf/SpiBus.cpp
+++ b/esp32-esp-idf/SpiBus.cpp
@@ -72,7 +72,13 @@ bool embedded::SpiBus::init(embedded::GpioPinDefinition &sck,
         devcfg.flags |= SPI_DEVICE_HALFDUPLEX;
     }
 
-    return spi_bus_add_device(static_cast<spi_host_device_t>(spiBusNumber), &devcfg, &spiDevice) == ESP_OK;
+    if (spi_bus_add_device(static_cast<spi_host_device_t>(spiBusNumber), &devcfg, &spiDevice) != ESP_OK)
+    {
+        spiDevice = nullptr;
+        spi_bus_free(static_cast<spi_host_device_t>(spiBusNumber));
+        return false;
+    }
+    return true;
 }
 
 bool embedded::SpiBus::release()
-- 
2.43.0


From 2999526ebee9884dd66aaca5c9f070d8b24e9c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:05 +0000
Subject: [PATCH 17/27] fix: ESP32 PacketUart reported 65535 transferred bytes
 when the driver failed

---
 esp32-esp-idf/PacketUart.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/esp32-esp-idf/PacketUart.cpp b/esp32-esp-idf/PacketUart.cpp
index ad71e6e..bd74f8f 100644
--- a/esp32-esp-idf/PacketUart.cpp
+++ b/esp32-esp-idf/PacketUart.cpp
@@ -9,12 +9,14 @@ namespace embedded
 
 uint16_t PacketUart::Receive(uint8_t* buffer, uint16_t bufferSize, uint16_t timeout)
 {
-    return uartDevice.receiveBlocking(buffer, bufferSize, timeout);
+    const auto result = uartDevice.receiveBlocking(buffer, bufferSize, timeout);
+    return result > 0 ? result : 0;
 }
 
 uint16_t PacketUart::Send(const uint8_t* buffer, uint16_t bufferSize, uint32_t /*timeoutMilliseconds*/) const
 {
-    return uartDevice.sendBlocking(buffer, bufferSize);
+    const auto result = uartDevice.sendBlocking(buffer, bufferSize);
+    return result > 0 ? result : 0;
 }
 
 uint16_t PacketUart::ReceiveUntil(uint8_t* buffer, uint16_t bufferSize, uint8_t endByte, uint16_t timeoutMilliseconds)
-- 
2.43.0


From 6aea45ebcc0eb51c64aea6e743c7559dc469611b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:05 +0000
Subject: [PATCH 18/27] fix: ESP32 PacketUart timeouts failed when the tick
 counter wrapped or noise kept coming

---
 esp32-esp-idf/PacketUart.cpp | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/esp32-esp-idf/PacketUart.cpp b/esp32-esp-idf/PacketUart.cpp
index bd74f8f..e8b60c7 100644
--- a/esp32-esp-idf/PacketUart.cpp
+++ b/esp32-esp-idf/PacketUart.cpp
@@ -22,12 +22,12 @@ uint16_t PacketUart::Send(const uint8_t* buffer, uint16_t bufferSize, uint32_t /
 uint16_t PacketUart::ReceiveUntil(uint8_t* buffer, uint16_t bufferSize, uint8_t endByte, uint16_t timeoutMilliseconds)
 {
     uint16_t currentPos = 0;
-    auto startTime = embedded::getMillisecondTicks();
-    auto maxTime = startTime + timeoutMilliseconds;
+    const auto startTime = embedded::getMillisecondTicks();
+    uint32_t elapsed = 0;
     while ( currentPos < bufferSize
-            && (timeoutMilliseconds == 0 || (startTime = embedded::getMillisecondTicks()) < maxTime))
+            && (timeoutMilliseconds == 0 || (elapsed = embedded::getMillisecondTicks() - startTime) < timeoutMilliseconds))
     {
-        if (uartDevice.receiveBlocking(buffer + currentPos, 1, maxTime - startTime) == 1)
+        if (uartDevice.receiveBlocking(buffer + currentPos, 1, timeoutMilliseconds - elapsed) == 1)
         {
             if (buffer[currentPos++] == endByte)
             {
@@ -48,26 +48,27 @@ uint16_t PacketUart::ReceiveBetween(uint8_t* buffer,
     if (bufferSize < 2)
         return 0;
     uint16_t currentPos = 0;
-    auto startTime = embedded::getMillisecondTicks();
-    auto maxTime = startTime + timeoutMilliseconds;
-    while (startTime <= maxTime)
+    const auto startTime = embedded::getMillisecondTicks();
+    uint32_t elapsed = 0;
+    while (true)
     {
-        if(uartDevice.receiveBlocking(buffer + currentPos, 1, maxTime - startTime) == 1)
+        if (elapsed > timeoutMilliseconds
+            || uartDevice.receiveBlocking(buffer + currentPos, 1, timeoutMilliseconds - elapsed) != 1)
         {
-            if (buffer[currentPos] == startByte)
-                break;
+            return 0;
         }
-        else
+        if (buffer[currentPos] == startByte)
         {
-            return 0;
+            break;
         }
+        elapsed = embedded::getMillisecondTicks() - startTime;
     }
     ++currentPos;
-    while ((startTime = embedded::getMillisecondTicks()) <= maxTime)
+    while ((elapsed = embedded::getMillisecondTicks() - startTime) <= timeoutMilliseconds)
     {
         if (currentPos == bufferSize)
             break;
-        if(uartDevice.receiveBlocking(buffer + currentPos, 1, maxTime - startTime) == 1)
+        if(uartDevice.receiveBlocking(buffer + currentPos, 1, timeoutMilliseconds - elapsed) == 1)
         {
             if (buffer[currentPos++] == endByte)
                 break;
-- 
2.43.0


From 0dc1e813aaaaada8e67d70e4b5dbf64d03aa459c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:06 +0000
Subject: [PATCH 19/27] fix: Arduino PacketUart timeouts failed when the tick
 counter wrapped

---
 arduino/PacketUart.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/arduino/PacketUart.cpp b/arduino/PacketUart.cpp
index 168ef20..b28c7b4 100644
--- a/arduino/PacketUart.cpp
+++ b/arduino/PacketUart.cpp
@@ -10,10 +10,9 @@ static_assert(std::is_convertible_v<PacketUart::UartDevice, HardwareSerial>);;
 
 uint16_t PacketUart::Receive(uint8_t* buffer, uint16_t bufferSize, uint16_t timeout)
 {
-    auto startTime = millis();
-    auto maxTime = startTime + timeout;
+    const auto startTime = millis();
     uint16_t currentPos = 0;
-    while (millis() < maxTime && currentPos < bufferSize)
+    while (millis() - startTime < timeout && currentPos < bufferSize)
     {
         int nextByte = uartDevice.read();
         if (nextByte >= 0)
@@ -67,9 +66,8 @@ uint16_t PacketUart::ReceiveBetween(uint8_t* buffer,
     {
         uartDevice.setTimeout(timeoutMilliseconds);
     }
-    auto startTime = millis();
-    auto maxTime = startTime + timeoutMilliseconds;
-    while (timeoutMilliseconds == 0 || millis() < maxTime)
+    const auto startTime = millis();
+    while (timeoutMilliseconds == 0 || millis() - startTime < timeoutMilliseconds)
     {
         int nextByte = uartDevice.read();
         if (nextByte == startByte)
-- 
2.43.0


From 477a800ad2ada6492e23855375bfcc47e01249e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:06 +0000
Subject: [PATCH 20/27] fix: Arduino PacketUart overran small buffers and made
 up terminators that weren't received

---
 arduino/PacketUart.cpp | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/arduino/PacketUart.cpp b/arduino/PacketUart.cpp
index b28c7b4..ddc67e1 100644
--- a/arduino/PacketUart.cpp
+++ b/arduino/PacketUart.cpp
@@ -2,6 +2,25 @@
 
 #include <algorithm>
 
+namespace
+{
+
+uint16_t readUntil(HardwareSerial& serial, uint8_t* buffer, uint16_t bufferSize, uint8_t endByte)
+{
+    // Stream::readBytesUntil drops the terminator and doesn't tell whether it was received at all
+    uint16_t currentPos = 0;
+    while (currentPos < bufferSize && serial.readBytes(buffer + currentPos, 1) == 1)
+    {
+        if (buffer[currentPos++] == endByte)
+        {
+            break;
+        }
+    }
+    return currentPos;
+}
+
+}
+
 namespace embedded
 {
 
@@ -48,8 +67,7 @@ uint16_t PacketUart::ReceiveUntil(uint8_t* buffer, uint16_t bufferSize, uint8_t
     {
         uartDevice.setTimeout(timeoutMilliseconds);
     }
-    currentPos += uartDevice.readBytesUntil((char)endByte, buffer, bufferSize - 1);
-    buffer[currentPos++] = endByte;
+    currentPos += readUntil(uartDevice, buffer, bufferSize, endByte);
     uartDevice.setTimeout(oldTimeout);
     return currentPos;
 }
@@ -60,6 +78,8 @@ uint16_t PacketUart::ReceiveBetween(uint8_t* buffer,
                                     uint8_t endByte,
                                     uint16_t timeoutMilliseconds)
 {
+    if (bufferSize < 2)
+        return 0;
     uint16_t currentPos = 0;
     auto oldTimeout = uartDevice.getTimeout();
     if (timeoutMilliseconds > 0)
@@ -73,8 +93,7 @@ uint16_t PacketUart::ReceiveBetween(uint8_t* buffer,
         if (nextByte == startByte)
         {
             buffer[currentPos++] = (uint8_t)nextByte;
-            currentPos += uartDevice.readBytesUntil((char)endByte, buffer + currentPos, bufferSize - currentPos - 1);
-            buffer[currentPos++] = endByte;
+            currentPos += readUntil(uartDevice, buffer + currentPos, bufferSize - currentPos, endByte);
             break;
         }
     }
-- 
2.43.0


From 868e0cc36d80d7223ce69a73a936e55fb5ddf1a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:06 +0000
Subject: [PATCH 21/27] fix: ESP32 ligntSleep slept for a wrong time around
 tick counter wraps and for long delays

---
 esp32-esp-idf/SleepFunctions.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/esp32-esp-idf/SleepFunctions.h b/esp32-esp-idf/SleepFunctions.h
index 0612df6..696e82b 100644
--- a/esp32-esp-idf/SleepFunctions.h
+++ b/esp32-esp-idf/SleepFunctions.h
@@ -8,18 +8,18 @@ namespace embedded
 
 void ligntSleep(uint32_t milliseconds)
 {
-    uint32_t tickstart = getMillisecondTicks();
-    uint32_t wait = tickstart + milliseconds;
+    const uint32_t tickstart = getMillisecondTicks();
+    uint32_t elapsed = 0;
 
-    while ((getMillisecondTicks() < wait))
+    while ((elapsed = getMillisecondTicks() - tickstart) < milliseconds)
     {
-        esp_sleep_enable_timer_wakeup((wait - getMillisecondTicks()) * 1000);
+        esp_sleep_enable_timer_wakeup((milliseconds - elapsed) * 1000ull);
         if (esp_light_sleep_start() != ESP_OK)
         {
-            auto current = getMillisecondTicks();
-            if (wait > current)
+            elapsed = getMillisecondTicks() - tickstart;
+            if (elapsed < milliseconds)
             {
-                delay(wait - current);
+                delay(milliseconds - elapsed);
             }
         }
     }
-- 
2.43.0


From c3aed4c9782d7eae5ba3e651c5852ef7fcb2338b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:12 +0000
Subject: [PATCH 22/27] fix: define PersistentStorage::DescriptorSize, which
 was only declared

---
 PersistentStorage.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/PersistentStorage.cpp b/PersistentStorage.cpp
index 6275db5..9215de0 100644
--- a/PersistentStorage.cpp
+++ b/PersistentStorage.cpp
@@ -1,5 +1,7 @@
 #include "PersistentStorage.h"
 
+const size_t embedded::PersistentStorage::DescriptorSize = sizeof(NodeDescriptor);
+
 embedded::PersistentStorage::PersistentStorage(BytesView storage, bool init)
 : buffer_(storage), free_head_(0)
 {
-- 
2.43.0


From 026b91517794c85a89d8e208ed79d6ef051ba9c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:37 +0000
Subject: [PATCH 23/27] fix: 2 bits per pixel frame buffers wrote pixels to the
 wrong bits

---
 graphics/SimpleFrameBuffer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphics/SimpleFrameBuffer.h b/graphics/SimpleFrameBuffer.h
index 2087247..fd18564 100644
--- a/graphics/SimpleFrameBuffer.h
+++ b/graphics/SimpleFrameBuffer.h
@@ -55,7 +55,7 @@ public:
         {
             const auto mask = 0xC0 >> (posX % 4) * 2;
             buffer[pixelOffset] &= ~mask;
-            buffer[pixelOffset] |= (color & 3) << (2 - (posX % 4) * 2);
+            buffer[pixelOffset] |= (color & 3) << (6 - (posX % 4) * 2);
         }
         else if constexpr (colorDepth == 4)
         {
-- 
2.43.0


From 84280623119fab6f52fd1ea1e7395dea0fef3071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:58 +0000
Subject: [PATCH 24/27] fix: the font converter crashes on FreeType errors when
 FreeType has no error texts

FT_Error_String returns a null pointer unless FreeType is built with the error strings, and appending it to
a std::string is undefined: a missing font file ended the converter with a segmentation fault.
---
 gfx-font-converter/FreeTypeError.h     | 11 +++++++++++
 gfx-font-converter/FreeTypeFace.cpp    |  7 ++++---
 gfx-font-converter/FreeTypeLibrary.cpp |  5 +++--
 3 files changed, 18 insertions(+), 5 deletions(-)
 create mode 100644 gfx-font-converter/FreeTypeError.h

diff --git a/gfx-font-converter/FreeTypeError.h b/gfx-font-converter/FreeTypeError.h
new file mode 100644
index 0000000..503bc39
--- /dev/null
+++ b/gfx-font-converter/FreeTypeError.h
@@ -0,0 +1,11 @@
+#pragma once
+
+#include <string>
+#include <freetype/freetype.h>
+
+// FT_Error_String returns a null pointer unless FreeType is built with the error strings.
+inline std::string getFreeTypeErrorText(FT_Error errorCode)
+{
+    const char* text = FT_Error_String(errorCode);
+    return text != nullptr ? std::string(text) : "error code " + std::to_string(errorCode);
+}
diff --git a/gfx-font-converter/FreeTypeFace.cpp b/gfx-font-converter/FreeTypeFace.cpp
index 1095e75..829924f 100644
--- a/gfx-font-converter/FreeTypeFace.cpp
+++ b/gfx-font-converter/FreeTypeFace.cpp
@@ -1,5 +1,6 @@
 #include "FreeTypeFace.h"
 
+#include "FreeTypeError.h"
 #include "FreeTypeGlyph.h"
 
 #include <string>
@@ -11,7 +12,7 @@ void FreeTypeFace::setCharSize(FT_F26Dot6 width, FT_F26Dot6 height, int horzReso
     if (const auto errorCode = FT_Set_Char_Size(ftFace.get(), width, height, horzResolution, vertResolution);
             errorCode != 0)
     {
-        throw std::runtime_error(std::string("Failed to set FreeType face char size: ") + FT_Error_String(errorCode));
+        throw std::runtime_error(std::string("Failed to set FreeType face char size: ") + getFreeTypeErrorText(errorCode));
     }
 }
 
@@ -19,11 +20,11 @@ FreeTypeGlyph FreeTypeFace::renderGlyph(uint32_t symbol, int loadFlags, FT_Rende
 {
     if (const auto errorCode = FT_Load_Char(ftFace.get(), symbol, loadFlags); errorCode != 0)
     {
-        throw std::runtime_error(std::string("Failed to load FreeType face char code ") + std::to_string(symbol) + ": " + FT_Error_String(errorCode));
+        throw std::runtime_error(std::string("Failed to load FreeType face char code ") + std::to_string(symbol) + ": " + getFreeTypeErrorText(errorCode));
     }
     if (const auto errorCode = FT_Render_Glyph(ftFace->glyph, renderMode); errorCode != 0)
     {
-        throw std::runtime_error(std::string("Failed to render FreeType face char code ") + std::to_string(symbol) + ": " + FT_Error_String(errorCode));
+        throw std::runtime_error(std::string("Failed to render FreeType face char code ") + std::to_string(symbol) + ": " + getFreeTypeErrorText(errorCode));
     }
 
     if (FT_Glyph ftGlyph; FT_Get_Glyph(ftFace->glyph, &ftGlyph) != 0)
diff --git a/gfx-font-converter/FreeTypeLibrary.cpp b/gfx-font-converter/FreeTypeLibrary.cpp
index 5b144df..9ea4eb5 100644
--- a/gfx-font-converter/FreeTypeLibrary.cpp
+++ b/gfx-font-converter/FreeTypeLibrary.cpp
@@ -1,5 +1,6 @@
 #include "FreeTypeLibrary.h"
 
+#include "FreeTypeError.h"
 #include "FreeTypeFace.h"
 
 #include <freetype/ftdriver.h>
@@ -13,7 +14,7 @@ FreeTypeLibrary::FreeTypeLibrary()
     FT_Library ftLibraryRaw;
     if (const auto errorCode = FT_Init_FreeType(&ftLibraryRaw); errorCode != 0)
     {
-        throw std::runtime_error(std::string("Failed to initialize FreeType library: ") + FT_Error_String(errorCode));
+        throw std::runtime_error(std::string("Failed to initialize FreeType library: ") + getFreeTypeErrorText(errorCode));
     }
     ftLibrary.reset(ftLibraryRaw);
     FT_UInt interpreter_version = TT_INTERPRETER_VERSION_35;
@@ -26,7 +27,7 @@ FreeTypeFace FreeTypeLibrary::createFace(const std::string& fontPath, int faceIn
     FT_Face ftFaceRaw;
     if (const auto errorCode = FT_New_Face(ftLibrary.get(), fontPath.c_str(), faceIndex, &ftFaceRaw); errorCode != 0)
     {
-        throw std::runtime_error(std::string("Failed to create FreeType face: ") + FT_Error_String(errorCode));
+        throw std::runtime_error(std::string("Failed to create FreeType face: ") + getFreeTypeErrorText(errorCode));
     }
     return FreeTypeFace(ftFaceRaw);
 }
\ No newline at end of file
-- 
2.43.0


From 46207ccf2bc10110bc6c75ab74322fd974a8fbb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:19 +0000
Subject: [PATCH 25/27] fix: the font converter aborts on options that are not
 numbers

FontConverterConfig throws, and it was made outside of main's try block.
---
 gfx-font-converter/main.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/gfx-font-converter/main.cpp b/gfx-font-converter/main.cpp
index 195ff2c..205c58f 100644
--- a/gfx-font-converter/main.cpp
+++ b/gfx-font-converter/main.cpp
@@ -254,18 +254,18 @@ void writeHeaderFile(const std::string &fontName, const std::filesystem::path &o
 
 int main(int argc, char* argv[])
 {
-    FontConverterConfig config(argc, argv);
-    const auto &fontFileName = config.getFontFileName();
-    if (config.getPrintHelp() || fontFileName.empty())
-    {
-        std::cout << "Usage: " << std::filesystem::path(argv[0]).filename().string()
-                  << " -f fontfile [-o outputfile] [-d DPI] [-s size] [-e 8-bit codepage, default ISO-8859-1] [-b] [-h]"
-                  << std::endl;
-        return 1;
-    }
-
     try
     {
+        FontConverterConfig config(argc, argv);
+        const auto &fontFileName = config.getFontFileName();
+        if (config.getPrintHelp() || fontFileName.empty())
+        {
+            std::cout << "Usage: " << std::filesystem::path(argv[0]).filename().string()
+                      << " -f fontfile [-o outputfile] [-d DPI] [-s size] [-e 8-bit codepage, default ISO-8859-1] [-b] [-h]"
+                      << std::endl;
+            return 1;
+        }
+
         const std::filesystem::path fontFilePath(fontFileName);
         const auto
                 fontName =
-- 
2.43.0


From c596995a9b3d020c806c85606acda626a6132fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:41 +0000
Subject: [PATCH 26/27] fix: the font converter wrote broken fonts when glyphs
 or bitmaps were too large for the format

---
 gfx-font-converter/main.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/gfx-font-converter/main.cpp b/gfx-font-converter/main.cpp
index 205c58f..931169d 100644
--- a/gfx-font-converter/main.cpp
+++ b/gfx-font-converter/main.cpp
@@ -288,6 +288,7 @@ int main(int argc, char* argv[])
             std::vector<uint8_t> bitmapData;
             VectorStream vectorStream(bitmapData);
             BitStream bitStream(vectorStream);
+            size_t bitmapOffset = 0;
             EncodingConverter iconvHolder(config.getEncoding().c_str(), "UCS-4LE");
             for (auto i = first, j = 0; i <= last; i = (i == '~') ? 0xA0 : i + 1, ++j)
             {
@@ -295,6 +296,14 @@ int main(int argc, char* argv[])
 
                 const auto &bitmapGlyphRec = glyph.getBitmapGlyph();
                 const auto &bitmap = bitmapGlyphRec.bitmap;
+                const auto advance = bitmapGlyphRec.root.advance.x >> 16;
+                const auto yOffset = 1 - bitmapGlyphRec.top;
+                if (bitmap.width > UINT8_MAX || bitmap.rows > UINT8_MAX || advance < 0 || advance > UINT8_MAX ||
+                    bitmapGlyphRec.left < INT8_MIN || bitmapGlyphRec.left > INT8_MAX ||
+                    yOffset < INT8_MIN || yOffset > INT8_MAX || bitmapOffset > UINT16_MAX)
+                {
+                    throw std::runtime_error("the font is too large for the output format");
+                }
 
                 for (unsigned y = 0; y < bitmap.rows; ++y)
                 {
@@ -307,10 +316,11 @@ int main(int argc, char* argv[])
                 }
                 bitStream.flush();
                 const auto bitmapSize = bitmapData.size();
+                bitmapOffset += bitmapSize;
                 table.emplace_back(GlyphData { { static_cast<uint16_t>(bitmapSize), {
                         static_cast<unsigned char>(bitmap.width), static_cast<unsigned char>(bitmap.rows) }
-                                            , static_cast<uint8_t>(bitmapGlyphRec.root.advance.x >> 16), {
-                        static_cast<char>(bitmapGlyphRec.left), static_cast<char>((1 - bitmapGlyphRec.top)) } }
+                                            , static_cast<uint8_t>(advance), {
+                        static_cast<int8_t>(bitmapGlyphRec.left), static_cast<int8_t>(yOffset) } }
                                             , std::move(bitmapData) });
 
             }
-- 
2.43.0


From c9bb4bc3063bd942243fefb3bff4e2509d8d889f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:26 +0000
Subject: [PATCH 27/27] fix: ESP32 SPI could not receive in full duplex mode

---
 esp32-esp-idf/SpiBus.cpp | 5 +++++
 esp32-esp-idf/SpiBus.h   | 1 +
 2 files changed, 6 insertions(+)

diff --git a/esp32-esp-idf/SpiBus.cpp b/esp32-esp-idf/SpiBus.cpp
index caa5499..644b43a 100644
--- a/esp32-esp-idf/SpiBus.cpp
+++ b/esp32-esp-idf/SpiBus.cpp
@@ -16,6 +16,10 @@ bool embedded::SpiBus::transfer(const uint8_t *sendBytes, uint8_t *receiveBytes,
         if (sendBytes != nullptr)
         {
             transaction.tx_buffer = sendBytes;
+        }
+        if (sendBytes != nullptr || fullDuplex)
+        {
+            // in full duplex mode the length also is the limit of what is received
             transaction.length = 8 * effectiveLength;
         }
         if (receiveBytes != nullptr)
@@ -48,6 +52,7 @@ bool embedded::SpiBus::init(embedded::GpioPinDefinition &sck,
                             embedded::SpiBus::DuplexMode duplexMode)
 {
     maxTransferSize = LLDESC_MAX_NUM_PER_DESC;
+    fullDuplex = duplexMode == DuplexMode::Full;
     spi_bus_config_t buscfg={};
     buscfg.mosi_io_num = mosi.pin;
     buscfg.miso_io_num = miso.pin;
diff --git a/esp32-esp-idf/SpiBus.h b/esp32-esp-idf/SpiBus.h
index ee9905e..318ebf6 100644
--- a/esp32-esp-idf/SpiBus.h
+++ b/esp32-esp-idf/SpiBus.h
@@ -28,6 +28,7 @@ private:
     int spiBusNumber;
     spi_device_t* spiDevice = nullptr;
     uint32_t maxTransferSize = 0;
+    bool fullDuplex = false;
 };
 
 }
-- 
2.43.0

