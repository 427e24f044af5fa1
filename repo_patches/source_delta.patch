From 8542b9d9507c4bc61dcbe4602f597ca36c74f7e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:48 +0000
Subject: [PATCH 01/46] fix: READ(6) of 256 blocks expects 256 * block_size
 bytes

---
 src/infi/asi/cdb/read.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/infi/asi/cdb/read.py b/src/infi/asi/cdb/read.py
index e59524d..c3bb325 100644
--- a/src/infi/asi/cdb/read.py
+++ b/src/infi/asi/cdb/read.py
@@ -39,8 +39,7 @@ class Read6Command(CDB):
         datagram = self.create_datagram()
         read_length = self.block_size * self.transfer_length
         if read_length == 0: # This is only in READ 6
-            # read_length = 256 * self.block_size
-            read_length = 256 * 512
+            read_length = 256 * self.block_size
         result_datagram = yield executer.call(SCSIReadCommand(datagram, read_length))
         yield result_datagram
 
-- 
2.43.0


From 3b4e410014806dadbf1b60bed1190232c4667290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:48 +0000
Subject: [PATCH 02/46] fix: READ(6) and WRITE(6) refuse a negative LBA instead
 of wrapping it

---
 src/infi/asi/cdb/read.py  | 2 +-
 src/infi/asi/cdb/write.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/infi/asi/cdb/read.py b/src/infi/asi/cdb/read.py
index c3bb325..dfd2b48 100644
--- a/src/infi/asi/cdb/read.py
+++ b/src/infi/asi/cdb/read.py
@@ -30,7 +30,7 @@ class Read6Command(CDB):
         self.logical_block_address = logical_block_address
         self.block_size = block_size
         self.transfer_length = transfer_length
-        assert self.logical_block_address < 2 ** 21
+        assert 0 <= self.logical_block_address < 2 ** 21
         assert self.transfer_length < 2 ** 8, "transfer_length should be in range [0,256), instead got: {}".format(self.transfer_length)
         self.logical_block_address__msb = self.logical_block_address >> 16
         self.logical_block_address__lsb = self.logical_block_address & 0xffff
diff --git a/src/infi/asi/cdb/write.py b/src/infi/asi/cdb/write.py
index abf3763..5745e1b 100644
--- a/src/infi/asi/cdb/write.py
+++ b/src/infi/asi/cdb/write.py
@@ -32,7 +32,7 @@ class Write6Command(CDB):
         self.buffer = buffer
         self.block_size = block_size
 
-        assert self.logical_block_address < 2 ** 21, "lba > 2**21"
+        assert 0 <= self.logical_block_address < 2 ** 21, "lba should be in range [0, 2**21)"
         assert len(buffer) % block_size == 0, "buffer length {0} is not a multiple of {1}".format(len(buffer), block_size)
 
         num_blocks = len(buffer) // block_size
-- 
2.43.0


From 5e2f3a9caef9cf706cc5bffddfc655547f800371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:48 +0000
Subject: [PATCH 03/46] fix: WRITE SAME checks the buffer against the block
 size it was given

---
 src/infi/asi/cdb/write_same.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/infi/asi/cdb/write_same.py b/src/infi/asi/cdb/write_same.py
index d3ada25..455dce7 100644
--- a/src/infi/asi/cdb/write_same.py
+++ b/src/infi/asi/cdb/write_same.py
@@ -33,7 +33,7 @@ class WriteSame10Command(CDB):
 
     def __init__(self, logical_block_address, buffer, number_of_blocks=1 ,block_size=DEFAULT_BLOCK_SIZE):
         super(WriteSame10Command, self).__init__()
-        assert (len(buffer) %  DEFAULT_BLOCK_SIZE)==0, "buffer length {0} is not a multiple of {1}".format(len(buffer), DEFAULT_BLOCK_SIZE)
+        assert (len(buffer) %  block_size)==0, "buffer length {0} is not a multiple of {1}".format(len(buffer), block_size)
         self.logical_block_address = logical_block_address
         self.buffer = buffer
         self.number_of_blocks = number_of_blocks
@@ -66,7 +66,7 @@ class WriteSame16Command(CDB):
                 ]
     def __init__(self, logical_block_address, buffer, number_of_blocks=1 ,block_size=DEFAULT_BLOCK_SIZE):
         super(WriteSame16Command, self).__init__()
-        assert (len(buffer) %  DEFAULT_BLOCK_SIZE)==0, "buffer length {0} is not a multiple of {1}".format(len(buffer), DEFAULT_BLOCK_SIZE)
+        assert (len(buffer) %  block_size)==0, "buffer length {0} is not a multiple of {1}".format(len(buffer), block_size)
         self.logical_block_address = logical_block_address
         self.buffer = buffer
         self.number_of_blocks = number_of_blocks
-- 
2.43.0


From ee53f470b988ce27a8f2951dc9aef2a1364de88f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:48 +0000
Subject: [PATCH 04/46] fix: UNMAP DATA LENGTH counts the six header bytes that
 follow it

---
 src/infi/asi/cdb/unmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/asi/cdb/unmap.py b/src/infi/asi/cdb/unmap.py
index 7ca710f..5ea7b2e 100644
--- a/src/infi/asi/cdb/unmap.py
+++ b/src/infi/asi/cdb/unmap.py
@@ -49,7 +49,7 @@ class UnmapParameterListHeader(CDB):
 
     def __init__(self, data_length):
         super(UnmapParameterListHeader, self).__init__()
-        self.unmap_data_length=data_length+7
+        self.unmap_data_length=data_length+6
         self.unmap_block_descriptor_data_length=data_length
         self.datagram = self.create_datagram()
 
-- 
2.43.0


From c5118878902ce5f153a1088b840368af057d80c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:19 +0000
Subject: [PATCH 05/46] fix: RTPG lengths and counts are unsigned; extended
 header is eight bytes

---
 src/infi/asi/cdb/rtpg.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/infi/asi/cdb/rtpg.py b/src/infi/asi/cdb/rtpg.py
index 5aee687..b643fd1 100755
--- a/src/infi/asi/cdb/rtpg.py
+++ b/src/infi/asi/cdb/rtpg.py
@@ -71,17 +71,17 @@ class TargetPortGroupDescriptor(Buffer):
     t_sup = be_int_field(where=bytes_ref[1].bits[7])
 
     target_port_group = be_uint_field(where=bytes_ref[2:4])
-    status_code = be_int_field(where=bytes_ref[5])
+    status_code = be_uint_field(where=bytes_ref[5])
 
-    target_port_count = be_int_field(where=bytes_ref[7])
+    target_port_count = be_uint_field(where=bytes_ref[7])
     target_port_list = list_field(type=TargetPortDescriptor, where=bytes_ref[8:], n=target_port_count)
 
 class TargetPortGroupLengthOnlyResponse(Buffer):
-    data_length = be_int_field(where=bytes_ref[0:4])
+    data_length = be_uint_field(where=bytes_ref[0:4])
     descriptor_list = list_field(type=TargetPortGroupDescriptor, where=bytes_ref[4:4 + data_length])
 
 class TargetPortGroupExtendedResponse(Buffer):
-    data_length = be_int_field(where=bytes_ref[0:4])
+    data_length = be_uint_field(where=bytes_ref[0:4])
     format_type = be_int_field(where=bytes_ref[4].bits[4:7])
-    descriptor_list = list_field(type=TargetPortGroupDescriptor, where=bytes_ref[7:7 + data_length])
+    descriptor_list = list_field(type=TargetPortGroupDescriptor, where=bytes_ref[8:4 + data_length])
     # ...
-- 
2.43.0


From 0de3ce00ee95611c3538488625658b4dbe43af8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:19 +0000
Subject: [PATCH 06/46] fix: RECEIVE COPY OPERATING PARAMETERS has a default
 CONTROL byte

---
 src/infi/asi/cdb/receive_copy_operating_parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/asi/cdb/receive_copy_operating_parameters.py b/src/infi/asi/cdb/receive_copy_operating_parameters.py
index 4936f0a..65eec8d 100644
--- a/src/infi/asi/cdb/receive_copy_operating_parameters.py
+++ b/src/infi/asi/cdb/receive_copy_operating_parameters.py
@@ -9,7 +9,7 @@ class ReceiveCopyOperatingParametersCommand(CDBBuffer):
     operation_code = be_uint_field(where=bytes_ref[0], set_before_pack=0x84)
     service_action = be_uint_field(where=bytes_ref[1].bits[0:5], set_before_pack=3)
     allocation_length = be_uint_field(where=bytes_ref[10:14])
-    control = be_uint_field(where=bytes_ref[15])
+    control = be_uint_field(where=bytes_ref[15], default=0)
 
     def execute(self, executer):
         datagram = self.create_datagram()
-- 
2.43.0


From 0f6f3c277cf568c687fd772a4ea228e864f2a9f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:19 +0000
Subject: [PATCH 07/46] fix: LOG SENSE refuses page codes that do not fit

---
 src/infi/asi/cdb/log_sense.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/infi/asi/cdb/log_sense.py b/src/infi/asi/cdb/log_sense.py
index de3ca01..d7a55f2 100644
--- a/src/infi/asi/cdb/log_sense.py
+++ b/src/infi/asi/cdb/log_sense.py
@@ -16,6 +16,7 @@ class LogSenseCommand(CDBBuffer):
     control = buffer_field(type=ControlBuffer, where=bytes_ref[9], set_before_pack=DEFAULT_CONTROL_BUFFER)
 
     def __init__(self, page_code, subpage_code=0, allocation_length=396):
+        assert 0 <= page_code <= 0x3f, "wrong page_code value {}".format(page_code)
         super(LogSenseCommand, self).__init__()
         self.sp = 0
         self.pc = 0
-- 
2.43.0


From b0d8abf9118648b61204575b68e069139cb76123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:11 +0000
Subject: [PATCH 08/46] fix: ATA model number is 40 characters, words 27 to 46

---
 src/infi/asi/cdb/inquiry/vpd_pages/ata_information.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/asi/cdb/inquiry/vpd_pages/ata_information.py b/src/infi/asi/cdb/inquiry/vpd_pages/ata_information.py
index a726537..1572770 100644
--- a/src/infi/asi/cdb/inquiry/vpd_pages/ata_information.py
+++ b/src/infi/asi/cdb/inquiry/vpd_pages/ata_information.py
@@ -18,7 +18,7 @@ class AtaIdentifyDevice(Buffer):
                                                   52])  # word 23-26 in ATA IDENTIFY DEVICE range
     model_number = str_field(where=bytes_ref[55, 54, 57, 56, 59, 58, 61, 60, 63, 62, 65, 64, 67, 66, 69, 68,
                                              71, 70, 73, 72, 75, 74, 77, 76, 79, 78, 81, 80, 83, 82, 85, 84,
-                                             87, 86, 89, 88, 91, 90])  # word 27-46 in ATA IDENTIFY DEVICE range
+                                             87, 86, 89, 88, 91, 90, 93, 92])  # word 27-46 in ATA IDENTIFY DEVICE range
 
 
 class DeviceSignature(Buffer):
-- 
2.43.0


From 4f23e43dbaf706021f06256c3ef7367d7e1b90ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:11 +0000
Subject: [PATCH 09/46] fix: ATA information page numbers are unsigned

---
 .../cdb/inquiry/vpd_pages/ata_information.py  | 22 +++++++++----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/infi/asi/cdb/inquiry/vpd_pages/ata_information.py b/src/infi/asi/cdb/inquiry/vpd_pages/ata_information.py
index 1572770..1317e7c 100644
--- a/src/infi/asi/cdb/inquiry/vpd_pages/ata_information.py
+++ b/src/infi/asi/cdb/inquiry/vpd_pages/ata_information.py
@@ -1,6 +1,6 @@
 from .. import PeripheralDeviceDataBuffer
 from . import EVPDInquiryCommand
-from infi.instruct.buffer import Buffer, str_field, bytes_ref, buffer_field, be_int_field
+from infi.instruct.buffer import Buffer, str_field, bytes_ref, buffer_field, be_uint_field
 
 
 # sat3r04: 12.4.2
@@ -23,27 +23,27 @@ class AtaIdentifyDevice(Buffer):
 
 class DeviceSignature(Buffer):
     byte_size = 20
-    transport_id = be_int_field(where=bytes_ref[0])
-    pm_port = be_int_field(where=bytes_ref[1].bits[0:4])
-    interrupt = be_int_field(where=bytes_ref[1].bits[6])
-    status = be_int_field(where=bytes_ref[2])
-    error = be_int_field(where=bytes_ref[3])
+    transport_id = be_uint_field(where=bytes_ref[0])
+    pm_port = be_uint_field(where=bytes_ref[1].bits[0:4])
+    interrupt = be_uint_field(where=bytes_ref[1].bits[6])
+    status = be_uint_field(where=bytes_ref[2])
+    error = be_uint_field(where=bytes_ref[3])
     lba = str_field(where=(bytes_ref[4] + bytes_ref[5] + bytes_ref[6] +
                            bytes_ref[8] + bytes_ref[9] + bytes_ref[10]))
-    device = be_int_field(where=bytes_ref[7])
-    sector_count = be_int_field(where=bytes_ref[12:14])
+    device = be_uint_field(where=bytes_ref[7])
+    sector_count = be_uint_field(where=bytes_ref[12:14])
 
 
 class AtaInformationVPDPageBuffer(Buffer):
     byte_size = 572
     peripheral_device = buffer_field(where=bytes_ref[0:], type=PeripheralDeviceDataBuffer)
-    page_code = be_int_field(where=bytes_ref[1:2])
-    page_length = be_int_field(where=bytes_ref[2:4])
+    page_code = be_uint_field(where=bytes_ref[1:2])
+    page_length = be_uint_field(where=bytes_ref[2:4])
     sat_vendor_identification = str_field(where=bytes_ref[8:16])  # bytes 8-15
     sat_product_identification = str_field(where=bytes_ref[16:32])  # bytes 16-31
     sat_product_revision_level = str_field(where=bytes_ref[32:36])  # bytes 32-35
     device_signature = buffer_field(where=bytes_ref[36:56], type=DeviceSignature)  # bytes 36-55
-    command_code = be_int_field(where=bytes_ref[56:57])
+    command_code = be_uint_field(where=bytes_ref[56:57])
     # ATA IDENTIFY DEVICE: bytes 60-571
     identify_device = buffer_field(where=bytes_ref[60:572], type=AtaIdentifyDevice)
 
-- 
2.43.0


From 05d6c931771a0c1efb36fd0e9fd4073e96e9475a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:11 +0000
Subject: [PATCH 10/46] fix: ATA device signature LBA may hold any byte

---
 src/infi/asi/cdb/inquiry/vpd_pages/ata_information.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/infi/asi/cdb/inquiry/vpd_pages/ata_information.py b/src/infi/asi/cdb/inquiry/vpd_pages/ata_information.py
index 1317e7c..e0105db 100644
--- a/src/infi/asi/cdb/inquiry/vpd_pages/ata_information.py
+++ b/src/infi/asi/cdb/inquiry/vpd_pages/ata_information.py
@@ -28,8 +28,8 @@ class DeviceSignature(Buffer):
     interrupt = be_uint_field(where=bytes_ref[1].bits[6])
     status = be_uint_field(where=bytes_ref[2])
     error = be_uint_field(where=bytes_ref[3])
-    lba = str_field(where=(bytes_ref[4] + bytes_ref[5] + bytes_ref[6] +
-                           bytes_ref[8] + bytes_ref[9] + bytes_ref[10]))
+    lba = str_field(encoding='latin-1', where=(bytes_ref[4] + bytes_ref[5] + bytes_ref[6] +
+                                               bytes_ref[8] + bytes_ref[9] + bytes_ref[10]))
     device = be_uint_field(where=bytes_ref[7])
     sector_count = be_uint_field(where=bytes_ref[12:14])
 
-- 
2.43.0


From ee27342a40b6454d6dba771e120d0694a7a37d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:11 +0000
Subject: [PATCH 11/46] fix: reserved designators hold binary data

---
 src/infi/asi/cdb/inquiry/vpd_pages/designators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/asi/cdb/inquiry/vpd_pages/designators.py b/src/infi/asi/cdb/inquiry/vpd_pages/designators.py
index 8e85618..94d2324 100644
--- a/src/infi/asi/cdb/inquiry/vpd_pages/designators.py
+++ b/src/infi/asi/cdb/inquiry/vpd_pages/designators.py
@@ -19,7 +19,7 @@ class DesignatorDescriptor(Buffer):
 # Designator types 09-0F are reserved
 class Reserved_Designator(DesignatorDescriptor):
     designator_length = be_uint_field(where=bytes_ref[3], set_before_pack=len_ref(self_ref.designator))
-    desginator = str_field(where=bytes_ref[4:4+designator_length])
+    designator = bytearray_field(where=bytes_ref[4:4+designator_length])
 
 
 # spc4r30, section 7.8.5.5.2, page 617
-- 
2.43.0


From 8a905c43b2bc96089f058518b53217a2d53112e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:11 +0000
Subject: [PATCH 12/46] fix: three- and five-byte designator fields are
 big-endian

---
 src/infi/asi/cdb/inquiry/vpd_pages/designators.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/infi/asi/cdb/inquiry/vpd_pages/designators.py b/src/infi/asi/cdb/inquiry/vpd_pages/designators.py
index 94d2324..8c77898 100644
--- a/src/infi/asi/cdb/inquiry/vpd_pages/designators.py
+++ b/src/infi/asi/cdb/inquiry/vpd_pages/designators.py
@@ -24,8 +24,9 @@ class Reserved_Designator(DesignatorDescriptor):
 
 # spc4r30, section 7.8.5.5.2, page 617
 class EUI64_Designator(DesignatorDescriptor):
-    ieee_company = be_uint_field(where=bytes_ref[4:7])
-    vendor_specific_extension_identifer = be_uint_field(where=bytes_ref[7:12])
+    ieee_company = be_uint_field(where=(bytes_ref[6] + bytes_ref[5] + bytes_ref[4]))
+    vendor_specific_extension_identifer = be_uint_field(where=(bytes_ref[11] + bytes_ref[10] + bytes_ref[9] +
+                                                               bytes_ref[8] + bytes_ref[7]))
 
 
 # spc4r30, section 7.8.5.5.3, page 617
@@ -36,8 +37,9 @@ class EUI64_12Byte_Designator(EUI64_Designator):
 # spc4r30, section 7.8.5.5.4, page 618
 class EUI64_16Byte_Designator(DesignatorDescriptor):
     identifier_extension = be_uint_field(where=bytes_ref[4:12])
-    ieee_company = be_uint_field(where=bytes_ref[12:15])
-    vendor_specific_extension_identifer = be_uint_field(where=bytes_ref[15:20])
+    ieee_company = be_uint_field(where=(bytes_ref[14] + bytes_ref[13] + bytes_ref[12]))
+    vendor_specific_extension_identifer = be_uint_field(where=(bytes_ref[19] + bytes_ref[18] + bytes_ref[17] +
+                                                               bytes_ref[16] + bytes_ref[15]))
 
 
 # spc4r30, section 7.8.5.6.1, page 618
@@ -48,8 +50,8 @@ class NAA_Descriptor(DesignatorDescriptor):
 # spc4r30, section 7.8.5.6.2, page 619
 class NAA_IEEE_Extended_Designator(NAA_Descriptor):
     vendor_specific_identifier_a = be_uint_field(where=(bytes_ref[5] + bytes_ref[4].bits[0:4]))
-    ieee_company = be_uint_field(where=bytes_ref[6:9])
-    vendor_specific_identifier_b = be_uint_field(where=bytes_ref[9:12])
+    ieee_company = be_uint_field(where=(bytes_ref[8] + bytes_ref[7] + bytes_ref[6]))
+    vendor_specific_identifier_b = be_uint_field(where=(bytes_ref[11] + bytes_ref[10] + bytes_ref[9]))
 
 
 # spc4r30, section 7.8.5.6.2, page 619
-- 
2.43.0


From fcc711d90748fc01405e0d121344b00951441f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:59 +0000
Subject: [PATCH 13/46] fix: T10 vendor designator length counts the vendor
 identification

---
 src/infi/asi/cdb/inquiry/vpd_pages/designators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/asi/cdb/inquiry/vpd_pages/designators.py b/src/infi/asi/cdb/inquiry/vpd_pages/designators.py
index 8c77898..75abda7 100644
--- a/src/infi/asi/cdb/inquiry/vpd_pages/designators.py
+++ b/src/infi/asi/cdb/inquiry/vpd_pages/designators.py
@@ -108,7 +108,7 @@ class VendorSpecificDesignator(DesignatorDescriptor):
 
 
 class T10VendorIDDesignator(DesignatorDescriptor):
-    designator_length = be_uint_field(where=bytes_ref[3], set_before_pack=len_ref(self_ref.vendor_specific_identifier))
+    designator_length = be_uint_field(where=bytes_ref[3], set_before_pack=8 + len_ref(self_ref.vendor_specific_identifier))
     t10_vendor_identification = str_field(where=bytes_ref[4:12])
     vendor_specific_identifier = bytearray_field(where=bytes_ref[12:4+designator_length])
 
-- 
2.43.0


From f8d18d20874277f636d2625918f4130aa430fb4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:21 +0000
Subject: [PATCH 14/46] fix: READ FULL STATUS required_allocation_length raised

---
 src/infi/asi/cdb/persist/input.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/asi/cdb/persist/input.py b/src/infi/asi/cdb/persist/input.py
index 9fe81e7..0ca00d8 100644
--- a/src/infi/asi/cdb/persist/input.py
+++ b/src/infi/asi/cdb/persist/input.py
@@ -117,7 +117,7 @@ class PersistentReserveInReadFullStatusResponse(CDBBuffer):
         unpack_if=additional_length > 0)
 
     def required_allocation_length(self):
-        return additional_length + 8
+        return self.additional_length + 8
 
 
 class PersistentReserveInCommand(CDBBuffer):
-- 
2.43.0


From 30c265edf32a3e0d2574afba474f2411e5e80816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:21 +0000
Subject: [PATCH 15/46] fix: READ RESERVATION type and scope need 22 bytes

---
 src/infi/asi/cdb/persist/input.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/infi/asi/cdb/persist/input.py b/src/infi/asi/cdb/persist/input.py
index 0ca00d8..36d3e6c 100644
--- a/src/infi/asi/cdb/persist/input.py
+++ b/src/infi/asi/cdb/persist/input.py
@@ -47,8 +47,8 @@ class PersistentReserveInReadReservationResponse(CDBBuffer):
     reservation_key = be_uint_field(where=bytes_ref[8:16], unpack_if=input_buffer_length >= 16)
     obsolete_1 = be_uint_field(where=bytes_ref[16:20], unpack_if=input_buffer_length >= 20)
     reserved_1 = be_uint_field(where=bytes_ref[20:21], unpack_if=input_buffer_length >= 21)
-    pr_type = be_uint_field(where=bytes_ref[21].bits[0:4], unpack_if=input_buffer_length >= 21)
-    scope = be_uint_field(where=bytes_ref[21].bits[4:8], unpack_if=input_buffer_length >= 21)
+    pr_type = be_uint_field(where=bytes_ref[21].bits[0:4], unpack_if=input_buffer_length >= 22)
+    scope = be_uint_field(where=bytes_ref[21].bits[4:8], unpack_if=input_buffer_length >= 22)
     obsolete_2 = be_uint_field(where=bytes_ref[22:24], unpack_if=input_buffer_length >= 24)
 
     def required_allocation_length(self):
-- 
2.43.0


From af81e805be5a6cb5a93f8c2ffb341fe2b1dae122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:21 +0000
Subject: [PATCH 16/46] fix: READ FULL STATUS does not decode a truncated list,
 as READ KEYS

---
 src/infi/asi/cdb/persist/input.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/asi/cdb/persist/input.py b/src/infi/asi/cdb/persist/input.py
index 36d3e6c..d3a2bf3 100644
--- a/src/infi/asi/cdb/persist/input.py
+++ b/src/infi/asi/cdb/persist/input.py
@@ -114,7 +114,7 @@ class PersistentReserveInReadFullStatusResponse(CDBBuffer):
     full_status_descriptors = list_field(
         where=bytes_ref[8:8 + additional_length],
         type=PersistentReserveInReadFullStatusDescriptor,
-        unpack_if=additional_length > 0)
+        unpack_if=input_buffer_length >= additional_length + 8)
 
     def required_allocation_length(self):
         return self.additional_length + 8
-- 
2.43.0


From 54475f848ceb72aecfeb38d9e6cf30797ad5ca53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:21 +0000
Subject: [PATCH 17/46] fix: PERSISTENT RESERVE OUT sends the APTPL it was
 given

---
 src/infi/asi/cdb/persist/output.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/asi/cdb/persist/output.py b/src/infi/asi/cdb/persist/output.py
index a86a2fa..c41d16c 100644
--- a/src/infi/asi/cdb/persist/output.py
+++ b/src/infi/asi/cdb/persist/output.py
@@ -42,7 +42,7 @@ class PersistentReserveOutCommandBasicParameterList(CDBBuffer):
     """
     reservation_key = be_uint_field(where=bytes_ref[0:8])
     service_action_reservation_key = be_uint_field(where=bytes_ref[8:16])
-    activate_persist_through_power_loss = be_uint_field(where=bytes_ref[20].bits[0], set_before_pack=0, default=0)
+    activate_persist_through_power_loss = be_uint_field(where=bytes_ref[20].bits[0], default=0)
     obsolete_1 = be_uint_field(where=bytes_ref[16:20], set_before_pack=0, default=0)
     all_target_ports = be_uint_field(where=bytes_ref[20].bits[2], default=0)
     specify_initiator_ports = be_uint_field(where=bytes_ref[20].bits[3], default=0)  
-- 
2.43.0


From b7ab93da11d939f797e20cc73e479a933560af9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:39 +0000
Subject: [PATCH 18/46] fix: SES page codes, lengths, counts and unsigned
 readings are decoded unsigned

---
 .../cdb/diagnostic/ses_pages/configuration.py | 18 ++++++-------
 .../ses_pages/element_descriptor.py           | 10 +++----
 .../diagnostic/ses_pages/enclosure_status.py  | 26 +++++++++----------
 .../diagnostic/ses_pages/supported_pages.py   |  6 ++---
 .../cdb/diagnostic/ses_pages/vendor_0x80.py   |  6 ++---
 5 files changed, 33 insertions(+), 33 deletions(-)

diff --git a/src/infi/asi/cdb/diagnostic/ses_pages/configuration.py b/src/infi/asi/cdb/diagnostic/ses_pages/configuration.py
index d7b7b3e..1928133 100644
--- a/src/infi/asi/cdb/diagnostic/ses_pages/configuration.py
+++ b/src/infi/asi/cdb/diagnostic/ses_pages/configuration.py
@@ -65,8 +65,8 @@ ELEMENT_TYPE_CODES = {ELEMENT_TYPE_UNSPECIFIED: 'Unspecified',
 class EnclosureDescriptor(Buffer):
     enclosure_services_processes_num = be_int_field(where=bytes_ref[0].bits[0:3])
     relative_enclosure_services_process_identifier = be_int_field(where=bytes_ref[0].bits[4:7])
-    subenclosure_identifier = be_int_field(where=bytes_ref[1])
-    type_descriptor_headers_num = be_int_field(where=bytes_ref[2])
+    subenclosure_identifier = be_uint_field(where=bytes_ref[1])
+    type_descriptor_headers_num = be_uint_field(where=bytes_ref[2])
     enclosure_descriptor_length = be_uint_field(where=bytes_ref[3])
     enclosure_logical_identifier = bytearray_field(where=bytes_ref[4:12])
     enclosure_vendor_identification = str_field(where=bytes_ref[12:20])
@@ -78,9 +78,9 @@ class EnclosureDescriptor(Buffer):
 
 class TypeDescriptorHeader(Buffer):
     element_type = be_int_field(where=bytes_ref[0], sign='unsigned')
-    possible_elements_num = be_int_field(where=bytes_ref[1])
-    subenclosure_identifier = be_int_field(where=bytes_ref[2])
-    type_descriptor_text_length = be_int_field(where=bytes_ref[3])
+    possible_elements_num = be_uint_field(where=bytes_ref[1])
+    subenclosure_identifier = be_uint_field(where=bytes_ref[2])
+    type_descriptor_text_length = be_uint_field(where=bytes_ref[3])
 
 
 class ConfigurationDiagnosticPagesData(DiagnosticDataBuffer):
@@ -91,10 +91,10 @@ class ConfigurationDiagnosticPagesData(DiagnosticDataBuffer):
         l = self.type_descriptor_header_list[index].type_descriptor_text_length
         return buffer[0:l].to_bytes(), l
 
-    page_code = be_int_field(where=bytes_ref[0])
-    secondary_subenclosures_num = be_int_field(where=bytes_ref[1])
-    page_length = be_int_field(where=bytes_ref[2:4], set_before_pack=total_size - 4)
-    generation_code = be_int_field(where=bytes_ref[4:8])
+    page_code = be_uint_field(where=bytes_ref[0])
+    secondary_subenclosures_num = be_uint_field(where=bytes_ref[1])
+    page_length = be_uint_field(where=bytes_ref[2:4], set_before_pack=total_size - 4)
+    generation_code = be_uint_field(where=bytes_ref[4:8])
     enclosure_descriptor_list = list_field(type=EnclosureDescriptor,
                                            where=bytes_ref[8:],
                                            n=secondary_subenclosures_num + 1)
diff --git a/src/infi/asi/cdb/diagnostic/ses_pages/element_descriptor.py b/src/infi/asi/cdb/diagnostic/ses_pages/element_descriptor.py
index 816ae12..85f63cc 100644
--- a/src/infi/asi/cdb/diagnostic/ses_pages/element_descriptor.py
+++ b/src/infi/asi/cdb/diagnostic/ses_pages/element_descriptor.py
@@ -1,9 +1,9 @@
-from infi.instruct.buffer import Buffer, bytes_ref, be_int_field, list_field, buffer_field, after_ref, member_func_ref, bytearray_field
+from infi.instruct.buffer import Buffer, bytes_ref, be_uint_field, list_field, buffer_field, after_ref, member_func_ref, bytearray_field
 from . import PCVReceiveDiagnosticResultCommand, DiagnosticDataBuffer
 
 
 class Descriptor(Buffer):
-    descriptor_length = be_int_field(where=bytes_ref[2:4])
+    descriptor_length = be_uint_field(where=bytes_ref[2:4])
     descriptor = bytearray_field(where_when_pack=bytes_ref[4:], where_when_unpack=bytes_ref[4:descriptor_length + 4])
 
 
@@ -30,9 +30,9 @@ class ElementDescriptorDiagnosticPagesData(DiagnosticDataBuffer):
     def _possible_elements_num(self):
         return len(self.conf_page.type_descriptor_header_list)
 
-    page_code = be_int_field(where=bytes_ref[0])
-    page_length = be_int_field(where=bytes_ref[2:4])
-    generation_code = be_int_field(where=bytes_ref[4:8])
+    page_code = be_uint_field(where=bytes_ref[0])
+    page_length = be_uint_field(where=bytes_ref[2:4])
+    generation_code = be_uint_field(where=bytes_ref[4:8])
     element_descriptors = list_field(where=bytes_ref[8:], type=ElementDescriptor,
                                      unpack_selector=_unpack_status_descriptor,
                                      n=member_func_ref(_possible_elements_num))
diff --git a/src/infi/asi/cdb/diagnostic/ses_pages/enclosure_status.py b/src/infi/asi/cdb/diagnostic/ses_pages/enclosure_status.py
index eb8d7b1..a95e8a4 100644
--- a/src/infi/asi/cdb/diagnostic/ses_pages/enclosure_status.py
+++ b/src/infi/asi/cdb/diagnostic/ses_pages/enclosure_status.py
@@ -1,4 +1,4 @@
-from infi.instruct.buffer import Buffer, bytes_ref, be_int_field, list_field, buffer_field, int8, member_func_ref
+from infi.instruct.buffer import Buffer, bytes_ref, be_int_field, be_uint_field, list_field, buffer_field, int8, member_func_ref
 from . import PCVReceiveDiagnosticResultCommand, DiagnosticDataBuffer
 
 
@@ -10,7 +10,7 @@ class GeneralElementInfo(Buffer):
 # ses3r05: 7.3.2
 class DeviceSlotElementInfo(Buffer):
     byte_size = 3
-    slot_address = be_int_field(where=bytes_ref[0])
+    slot_address = be_uint_field(where=bytes_ref[0])
     report = be_int_field(where=bytes_ref[1].bits[0])
     ident = be_int_field(where=bytes_ref[1].bits[1])
     rmv = be_int_field(where=bytes_ref[1].bits[2])
@@ -103,7 +103,7 @@ class TempSensorElementInfo(Buffer):
     byte_size = 3
     fail = be_int_field(where=bytes_ref[0].bits[6])
     ident = be_int_field(where=bytes_ref[0].bits[7])
-    temperature = be_int_field(where=bytes_ref[1])
+    temperature = be_uint_field(where=bytes_ref[1])
     ut_warn = be_int_field(where=bytes_ref[2].bits[0])
     ut_fail = be_int_field(where=bytes_ref[2].bits[1])
     ot_warn = be_int_field(where=bytes_ref[2].bits[2])
@@ -156,20 +156,20 @@ class NonVolotileCacheElementInfo(Buffer):
     size_mult = be_int_field(where=bytes_ref[0].bits[0:2])
     fail = be_int_field(where=bytes_ref[0].bits[6])
     ident = be_int_field(where=bytes_ref[0].bits[7])
-    cache_size = be_int_field(where=bytes_ref[1:])
+    cache_size = be_uint_field(where=bytes_ref[1:])
 
 
 # ses3r05: 7.3.12
 class InvalidOpReasonElementInfo(Buffer):
     byte_size = 3
     invop_type = be_int_field(where=bytes_ref[0].bits[6:8])
-    invop_bytes = be_int_field(where=bytes_ref[1:])
+    invop_bytes = be_uint_field(where=bytes_ref[1:])
 
 
 # ses3r05: 7.3.13
 class UninterruptiblePowerSupplyElementInfo(Buffer):
     byte_size = 3
-    battery_status = be_int_field(where=bytes_ref[0])
+    battery_status = be_uint_field(where=bytes_ref[0])
     intf_fail = be_int_field(where=bytes_ref[1].bits[0])
     warn = be_int_field(where=bytes_ref[1].bits[1])
     ups_fail = be_int_field(where=bytes_ref[1].bits[2])
@@ -190,7 +190,7 @@ class DisplayElementInfo(Buffer):
     display_mode_status = be_int_field(where=bytes_ref[0].bits[0:2])
     fail = be_int_field(where=bytes_ref[0].bits[6])
     ident = be_int_field(where=bytes_ref[0].bits[7])
-    display_char_status = be_int_field(where=bytes_ref[1:])
+    display_char_status = be_uint_field(where=bytes_ref[1:])
 
 
 # ses3r05: 7.3.15
@@ -227,7 +227,7 @@ class ScsiPortTransceiverElementInfo(Buffer):
 class LanguageElementInfo(Buffer):
     byte_size = 3
     ident = be_int_field(where=bytes_ref[0].bits[7])
-    language_code = be_int_field(where=bytes_ref[1:])
+    language_code = be_uint_field(where=bytes_ref[1:])
 
 
 # ses3r05: 7.3.19
@@ -283,7 +283,7 @@ class SimpleSubenclosureElementInfo(Buffer):
     byte_size = 3
     fail = be_int_field(where=bytes_ref[0].bits[6])
     ident = be_int_field(where=bytes_ref[0].bits[7])
-    short_enclosure_status = be_int_field(where=bytes_ref[2])
+    short_enclosure_status = be_uint_field(where=bytes_ref[2])
 
 
 # ses3r05: 7.3.25
@@ -298,7 +298,7 @@ class SasConnectorElementInfo(Buffer):
     byte_size = 3
     connector_type = be_int_field(where=bytes_ref[0].bits[0:7])
     ident = be_int_field(where=bytes_ref[0].bits[7])
-    connector_phys_link = be_int_field(where=bytes_ref[1])
+    connector_phys_link = be_uint_field(where=bytes_ref[1])
     fail = be_int_field(where=bytes_ref[2].bits[6])
 
 
@@ -488,14 +488,14 @@ class EnclosureStatusDiagnosticPagesData(DiagnosticDataBuffer):
     def _possible_elements_num(self):
         return len(self.conf_page.type_descriptor_header_list)
 
-    page_code = be_int_field(where=bytes_ref[0])
+    page_code = be_uint_field(where=bytes_ref[0])
     unrecov = be_int_field(where=bytes_ref[1].bits[0])
     crit = be_int_field(where=bytes_ref[1].bits[1])
     non_crit = be_int_field(where=bytes_ref[1].bits[2])
     info = be_int_field(where=bytes_ref[1].bits[3])
     invop = be_int_field(where=bytes_ref[1].bits[4])
-    page_length = be_int_field(where=bytes_ref[2:4])
-    generation_code = be_int_field(where=bytes_ref[4:8])
+    page_length = be_uint_field(where=bytes_ref[2:4])
+    generation_code = be_uint_field(where=bytes_ref[4:8])
     status_descriptors = list_field(where=bytes_ref[8:], type=StatusDescriptor,
                                     unpack_selector=_unpack_status_descriptor,
                                     n=member_func_ref(_possible_elements_num))
diff --git a/src/infi/asi/cdb/diagnostic/ses_pages/supported_pages.py b/src/infi/asi/cdb/diagnostic/ses_pages/supported_pages.py
index bffbb72..489171b 100644
--- a/src/infi/asi/cdb/diagnostic/ses_pages/supported_pages.py
+++ b/src/infi/asi/cdb/diagnostic/ses_pages/supported_pages.py
@@ -1,11 +1,11 @@
-from infi.instruct.buffer import bytes_ref, be_int_field, uint8, list_field
+from infi.instruct.buffer import bytes_ref, be_uint_field, uint8, list_field
 from . import PCVReceiveDiagnosticResultCommand, DiagnosticDataBuffer
 
 
 # spc4r36f: 7.2.4
 class SupportedDiagnosticPagesData(DiagnosticDataBuffer):
-    page_code = be_int_field(where=bytes_ref[0:1])
-    page_length = be_int_field(where=bytes_ref[2:4])
+    page_code = be_uint_field(where=bytes_ref[0:1])
+    page_length = be_uint_field(where=bytes_ref[2:4])
     supported_pages = list_field(type=uint8, where=bytes_ref[4:])
 
 
diff --git a/src/infi/asi/cdb/diagnostic/ses_pages/vendor_0x80.py b/src/infi/asi/cdb/diagnostic/ses_pages/vendor_0x80.py
index eeed147..c08fe87 100644
--- a/src/infi/asi/cdb/diagnostic/ses_pages/vendor_0x80.py
+++ b/src/infi/asi/cdb/diagnostic/ses_pages/vendor_0x80.py
@@ -1,10 +1,10 @@
-from infi.instruct.buffer import bytes_ref, be_int_field, uint8, list_field
+from infi.instruct.buffer import bytes_ref, be_uint_field, uint8, list_field
 from . import PCVReceiveDiagnosticResultCommand, DiagnosticDataBuffer
 
 
 class Vendor0x80DiagnosticPagesData(DiagnosticDataBuffer):
-    page_code = be_int_field(where=bytes_ref[0:1])
-    page_length = be_int_field(where=bytes_ref[2:4])
+    page_code = be_uint_field(where=bytes_ref[0:1])
+    page_length = be_uint_field(where=bytes_ref[2:4])
     vendor_specific = list_field(type=uint8, where=bytes_ref[4:])
 
 
-- 
2.43.0


From ab6b48234292d517a55b1dc901a9809b726590af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:09 +0000
Subject: [PATCH 19/46] fix: cooling element fan speed is most significant bits
 first

---
 src/infi/asi/cdb/diagnostic/ses_pages/enclosure_status.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/asi/cdb/diagnostic/ses_pages/enclosure_status.py b/src/infi/asi/cdb/diagnostic/ses_pages/enclosure_status.py
index a95e8a4..158f9e1 100644
--- a/src/infi/asi/cdb/diagnostic/ses_pages/enclosure_status.py
+++ b/src/infi/asi/cdb/diagnostic/ses_pages/enclosure_status.py
@@ -89,7 +89,7 @@ FAN_SPEED_CODE = {0: 'Cooling mechanism is stopped',
 class CoolingElementInfo(Buffer):
     byte_size = 3
     # for real fan speed the fan speed value should be multiplied by a factor of 10
-    fan_speed = be_int_field(where=(bytes_ref[0].bits[0:3] + bytes_ref[1]))
+    fan_speed = be_int_field(where=(bytes_ref[1] + bytes_ref[0].bits[0:3]))
     ident = be_int_field(where=bytes_ref[0].bits[7])
     speed_code = be_int_field(where=bytes_ref[2].bits[0:3])
     off = be_int_field(where=bytes_ref[2].bits[4])
-- 
2.43.0


From 6eb0be17b0c6cbcdbd71088bc4ad34e12b96d7a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:09 +0000
Subject: [PATCH 20/46] fix: enclosure element requested indications are in
 status byte 3

---
 src/infi/asi/cdb/diagnostic/ses_pages/enclosure_status.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/infi/asi/cdb/diagnostic/ses_pages/enclosure_status.py b/src/infi/asi/cdb/diagnostic/ses_pages/enclosure_status.py
index 158f9e1..e740dc7 100644
--- a/src/infi/asi/cdb/diagnostic/ses_pages/enclosure_status.py
+++ b/src/infi/asi/cdb/diagnostic/ses_pages/enclosure_status.py
@@ -207,9 +207,9 @@ class EnclosureElementInfo(Buffer):
     warn_indication = be_int_field(where=bytes_ref[1].bits[0])
     failure_indication = be_int_field(where=bytes_ref[1].bits[1])
     time_until_power_cycle = be_int_field(where=bytes_ref[1].bits[2:8])
-    warn_requested = be_int_field(where=bytes_ref[1].bits[0])
-    failure_requested = be_int_field(where=bytes_ref[1].bits[1])
-    requested_power_off_duration = be_int_field(where=bytes_ref[1].bits[2:8])
+    warn_requested = be_int_field(where=bytes_ref[2].bits[0])
+    failure_requested = be_int_field(where=bytes_ref[2].bits[1])
+    requested_power_off_duration = be_int_field(where=bytes_ref[2].bits[2:8])
 
 
 # ses3r05: 7.3.17
-- 
2.43.0


From 9761ca639f8490d917544ee49ed9881a4807d4f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:09 +0000
Subject: [PATCH 21/46] fix: a diagnostic page without a known layout is
 decoded as raw bytes, as unknown VPD pages

---
 src/infi/asi/cdb/diagnostic/ses_pages/unknown.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/infi/asi/cdb/diagnostic/ses_pages/unknown.py b/src/infi/asi/cdb/diagnostic/ses_pages/unknown.py
index f9d0049..86524ac 100644
--- a/src/infi/asi/cdb/diagnostic/ses_pages/unknown.py
+++ b/src/infi/asi/cdb/diagnostic/ses_pages/unknown.py
@@ -1,10 +1,11 @@
-from infi.instruct.buffer import Buffer, bytes_ref, be_int_field
-from . import PCVReceiveDiagnosticResultCommand
+from infi.instruct.buffer import bytes_ref, be_uint_field, uint8, list_field
+from . import PCVReceiveDiagnosticResultCommand, DiagnosticDataBuffer
 
 
-class UnknownDiagnosticPageData(Buffer):
-    page_code = be_int_field(where=bytes_ref[0:1])
-    page_data = be_int_field(where=bytes_ref[1:])
+class UnknownDiagnosticPageData(DiagnosticDataBuffer):
+    page_code = be_uint_field(where=bytes_ref[0:1])
+    page_length = be_uint_field(where=bytes_ref[2:4])
+    page_data = list_field(type=uint8, where=bytes_ref[4:4+page_length])
 
 
 def UnknownDiagnosticPageCommand(page_code):
-- 
2.43.0


From 082a83af969959b66f43a376127d0384bb6230a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:03 +0000
Subject: [PATCH 22/46] fix: descriptor format sense data has its length in
 byte 7

---
 src/infi/asi/sense/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/asi/sense/__init__.py b/src/infi/asi/sense/__init__.py
index 4c6f796..5fa61e7 100644
--- a/src/infi/asi/sense/__init__.py
+++ b/src/infi/asi/sense/__init__.py
@@ -59,7 +59,7 @@ class SCSISenseDataDescriptorBased(Struct):
             BitPadding(4)
             ),
         Field("additional_sense_code", AdditionalSenseCode),
-        BytePadding(2),
+        BytePadding(3),
         SumSizeArray("descriptors", UBInt8,
                      StructSelector(UBInt8, SENSE_DESCIPTOR_TYPES, default=SCSISenseDataGenericDescriptor))
     ]
-- 
2.43.0


From 36624d8ccc116d339f2dd29540b6fb0e10be5cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:03 +0000
Subject: [PATCH 23/46] fix: additional sense qualifiers of a range include FFh

---
 src/infi/asi/sense/asc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/infi/asi/sense/asc.py b/src/infi/asi/sense/asc.py
index 052f25f..1be2678 100644
--- a/src/infi/asi/sense/asc.py
+++ b/src/infi/asi/sense/asc.py
@@ -668,10 +668,10 @@ ASC_CODES = {
     struct.pack(">BB", 0x7F, 0x00): "VENDOR SPECIFIC",
 }
 
-for i in range(0x80, 0xFF):
+for i in range(0x80, 0x100):
     ASC_CODES[struct.pack(">BB", 0x40, i)] = "DIAGNOSTIC FAILURE ON COMPONENT %2X" % (i,)
 
-for i in range(0, 0xFF):
+for i in range(0, 0x100):
     ASC_CODES[struct.pack(">BB", 0x4D, i)] = "TAGGED OVERLAPPED COMMANDS (%2X = TASK TAG)" % (i,)
     ASC_CODES[struct.pack(">BB", 0x70, i)] = "DECOMPRESSION EXCEPTION SHORT ALGORITHM ID OF %2X" % (i,)
 
-- 
2.43.0


From b21e616f930f09226362024ae9661f278e61bd35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:29 +0000
Subject: [PATCH 24/46] fix: a check condition with sense data that cannot be
 decoded is reported as one

---
 src/infi/asi/__init__.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/infi/asi/__init__.py b/src/infi/asi/__init__.py
index 452c196..674c600 100644
--- a/src/infi/asi/__init__.py
+++ b/src/infi/asi/__init__.py
@@ -153,7 +153,11 @@ class CommandExecuterBase(CommandExecuter):
         raise NotImplementedError()
 
     def _check_condition(self, buf):
-        sense = get_sense_object_from_buffer(buf)
+        try:
+            sense = get_sense_object_from_buffer(buf)
+        except Exception:
+            # sense data that cannot be decoded is still a check condition, the caller gets it raw
+            sense = None
         return AsiCheckConditionError(buf, sense)
 
 # TODO: maybe add a ReactorCommandExecuter that also adds a "register_response_listener()" that automatically reads
-- 
2.43.0


From 30a1de935725cebf027dc1026009565347acd6d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:17 +0000
Subject: [PATCH 25/46] fix: the SG_IO ioctl executer looks at the response and
 not at its request

---
 src/infi/asi/linux.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/infi/asi/linux.py b/src/infi/asi/linux.py
index bb5b4f0..0a49a6d 100644
--- a/src/infi/asi/linux.py
+++ b/src/infi/asi/linux.py
@@ -285,7 +285,8 @@ class LinuxIoctlCommandExecuter(LinuxCommandExecuter):
     def _os_send(self, os_data):
         from fcntl import ioctl
         self.buffer = os_data.to_raw()
-        gevent_friendly(ioctl)(self.io.fd, SG_IO, self.buffer)
+        # the buffer is immutable, the response is what ioctl returns
+        self.buffer = gevent_friendly(ioctl)(self.io.fd, SG_IO, self.buffer)
         yield len(self.buffer)
 
     def _os_receive(self):
-- 
2.43.0


From ca7fe1d3e92170857765d56616bbcee35f845280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:17 +0000
Subject: [PATCH 26/46] fix: driver status BUSY is not taken for DRIVER_SENSE

---
 src/infi/asi/linux.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/asi/linux.py b/src/infi/asi/linux.py
index 0a49a6d..a26f6b1 100644
--- a/src/infi/asi/linux.py
+++ b/src/infi/asi/linux.py
@@ -232,7 +232,7 @@ class LinuxCommandExecuter(CommandExecuterBase):
         request_sgio = self._get_os_data(packet_id)
 
         if (response_sgio.status & SCSI_STATUS_CODES['SCSI_STATUS_CHECK_CONDITION']) != 0 or \
-                (response_sgio.driver_status & DRIVER_STATUS_CODES['SG_ERR_DRIVER_SENSE'] != 0):
+                (response_sgio.driver_status & DRIVER_STATUS_CODES['SG_ERR_DRIVER_SENSE']) != 0:
             logger.debug("response_sgio.status = 0x{:x}".format(response_sgio.status))
             logger.debug("response_sgio.driver_status = 0x{:x}".format(response_sgio.driver_status))
             return (self._check_condition(string_at(response_sgio.sbp, SENSE_SIZE)), packet_id)
-- 
2.43.0


From 852672756586f9cc6c77b50393f8511e26572ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:17 +0000
Subject: [PATCH 27/46] fix: a reservation conflict is a SCSI status, not a
 host status

---
 src/infi/asi/linux.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/asi/linux.py b/src/infi/asi/linux.py
index a26f6b1..3435796 100644
--- a/src/infi/asi/linux.py
+++ b/src/infi/asi/linux.py
@@ -240,7 +240,7 @@ class LinuxCommandExecuter(CommandExecuterBase):
         if response_sgio.status != 0:
             if response_sgio.host_status == 0x07:
                 return (AsiRequestQueueFullError(), packet_id)
-            if response_sgio.host_status == SCSI_STATUS_CODES['SCSI_STATUS_RESERVATION_CONFLICT']:
+            if response_sgio.status == SCSI_STATUS_CODES['SCSI_STATUS_RESERVATION_CONFLICT']:
                 return (AsiReservationConflictError(), packet_id)
             error = AsiSCSIError(("SCSI response status is not zero: %s" +
                                   "(driver status: %s, host status: %s)") %
-- 
2.43.0


From 3b144b8163faaa4e472afc473a742bbd6a5b3767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:17 +0000
Subject: [PATCH 28/46] fix: a response with an unknown packet id is an
 internal error

---
 src/infi/asi/linux.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/infi/asi/linux.py b/src/infi/asi/linux.py
index 3435796..17effc6 100644
--- a/src/infi/asi/linux.py
+++ b/src/infi/asi/linux.py
@@ -264,7 +264,8 @@ class LinuxCommandExecuter(CommandExecuterBase):
             return (error, packet_id)
 
         data = None
-        if request_sgio.dxfer_direction == SG_DXFER_FROM_DEV and request_sgio.dxfer_len != 0:
+        # a response that was not asked for is reported by the caller
+        if request_sgio is not None and request_sgio.dxfer_direction == SG_DXFER_FROM_DEV and request_sgio.dxfer_len != 0:
             data = request_sgio.data_buffer.raw
 
         return (data, packet_id)
-- 
2.43.0


From 222e7bdf44d71b037c9afc5f4c518b6b48305ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:17 +0000
Subject: [PATCH 29/46] fix: a failing ioctl of libc is an error on AIX, as one
 of fcntl

---
 src/infi/asi/aix.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/infi/asi/aix.py b/src/infi/asi/aix.py
index e0d105b..63643a8 100644
--- a/src/infi/asi/aix.py
+++ b/src/infi/asi/aix.py
@@ -341,6 +341,13 @@ class sc_passthru(Structure):
     def sizeof(cls):
         return sizeof(cls)
 
+def _raise_on_failure(result, func, args):
+    # as fcntl.ioctl does
+    if result == -1:
+        import ctypes
+        raise IOError(ctypes.get_errno(), "ioctl failed")
+    return result
+
 def get_ioctl_function():
     # fcntl.ioctl doesn't support arguments above 32-bit, but we pass
     # a pointer to ioctl which, in 64-bit mode, may be a 64-bit value -
@@ -349,7 +356,7 @@ def get_ioctl_function():
     try:
         # this will only work on 64-bit Python and only
         # on Python >= 3.7 (bpo-26439)
-        libc = ctypes.CDLL("libc.a(shr_64.o)")
+        libc = ctypes.CDLL("libc.a(shr_64.o)", use_errno=True)
     except OSError:  # Could not load module
         # use fcntl
         import fcntl
@@ -358,6 +365,7 @@ def get_ioctl_function():
         ioctl = libc.ioctl
         ioctl.restype = ctypes.c_int
         ioctl.argtypes = (ctypes.c_int, ctypes.c_int, ctypes.c_void_p)
+        ioctl.errcheck = _raise_on_failure
         return ioctl
 
 class AixCommandExecuter(CommandExecuterBase):
-- 
2.43.0


From 1308bb3848608c12d632006a38eb1e391c0129c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:07 +0000
Subject: [PATCH 30/46] fix: a full queue raised NameError instead of
 AsiRequestQueueFullError

---
 src/infi/asi/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/asi/__init__.py b/src/infi/asi/__init__.py
index 674c600..4c988e4 100644
--- a/src/infi/asi/__init__.py
+++ b/src/infi/asi/__init__.py
@@ -3,7 +3,7 @@ __import__("pkg_resources").declare_namespace(__name__)
 import os
 from infi.instruct import *
 from infi.pyutils.decorators import wraps
-from .errors import AsiException, AsiCheckConditionError, AsiInternalError
+from .errors import AsiException, AsiCheckConditionError, AsiInternalError, AsiRequestQueueFullError
 from .sense import *
 
 try:
-- 
2.43.0


From 530302e971925524db020c4fda40afa4c67b9822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:07 +0000
Subject: [PATCH 31/46] fix: a packet index is not reused while its command is
 pending

---
 src/infi/asi/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/infi/asi/__init__.py b/src/infi/asi/__init__.py
index 4c988e4..51e0c0b 100644
--- a/src/infi/asi/__init__.py
+++ b/src/infi/asi/__init__.py
@@ -116,6 +116,9 @@ class CommandExecuterBase(CommandExecuter):
     def _next_packet_index(self):
         if len(self.pending_packets) >= self.max_queue_size:
             raise AsiRequestQueueFullError()
+        # responses may come in any order, skip those that are still pending
+        while self.packet_index in self.pending_packets:
+            self.packet_index = (self.packet_index + 1) % self.max_queue_size
         result = self.packet_index
         self.packet_index = (self.packet_index + 1) % self.max_queue_size
         return result
-- 
2.43.0


From 3bf0f0361ccb7192300f74f4aaddcb585b896cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:07 +0000
Subject: [PATCH 32/46] fix: a command sent without a callback can be completed

---
 src/infi/asi/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/infi/asi/__init__.py b/src/infi/asi/__init__.py
index 51e0c0b..1b9ebae 100644
--- a/src/infi/asi/__init__.py
+++ b/src/infi/asi/__init__.py
@@ -133,7 +133,9 @@ class CommandExecuterBase(CommandExecuter):
         if request is None:
             raise AsiInternalError("SCSI response doesn't appear in the pending I/O list.")
 
-        if isinstance(result, Exception):
+        if callback is None:
+            pass
+        elif isinstance(result, Exception):
             callback(None, result)
         else:
             callback(result, None)
-- 
2.43.0


From 68ef4e3398bdf51ac625fef39c2d9c2342902b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:07 +0000
Subject: [PATCH 33/46] fix: is_queue_full is not a coroutine, the adapter does
 not run it as one

---
 src/infi/asi/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/asi/__init__.py b/src/infi/asi/__init__.py
index 1b9ebae..f840d00 100644
--- a/src/infi/asi/__init__.py
+++ b/src/infi/asi/__init__.py
@@ -181,7 +181,7 @@ class CommandExecuterAdapter(CommandExecuter):
         return self.call_wrapper(self.executer.send, command, callback)
 
     def is_queue_full(self):
-        return self.call_wrapper(self.executer.is_queue_full)
+        return self.executer.is_queue_full()
 
     def wait(self):
         return self.call_wrapper(self.executer.wait)
-- 
2.43.0


From 6231e1a3bfa0aa39fcb4b49cd7cfc7d9b36f9e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:07 +0000
Subject: [PATCH 34/46] fix: an exception that a coroutine handled is not
 raised in its caller

---
 src/infi/asi/coroutines/sync_adapter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/infi/asi/coroutines/sync_adapter.py b/src/infi/asi/coroutines/sync_adapter.py
index 689b105..4a5a935 100755
--- a/src/infi/asi/coroutines/sync_adapter.py
+++ b/src/infi/asi/coroutines/sync_adapter.py
@@ -31,6 +31,9 @@ class Coroutine(object):
                 self.args = self.result
         except StopIteration as e:
             self.stack.pop()
+            if isinstance(self.args, BaseException):
+                # the generator handled it, its caller should not get it
+                self.args = None
         except BaseException as e:
             self.tb = sys.exc_info()[2]
             self.stack.pop()
-- 
2.43.0


From dce6ffcbded9dd96b1ad1a67d754cd763af79ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:07 +0000
Subject: [PATCH 35/46] fix: sync_call calls the function once

---
 src/infi/asi/coroutines/sync_adapter.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/infi/asi/coroutines/sync_adapter.py b/src/infi/asi/coroutines/sync_adapter.py
index 4a5a935..88dc50a 100755
--- a/src/infi/asi/coroutines/sync_adapter.py
+++ b/src/infi/asi/coroutines/sync_adapter.py
@@ -71,7 +71,6 @@ class SyncCoroutine(Coroutine):
         return True
 
 def sync_call(func, *init_args, **init_kwargs):
-    stack = [ func(*init_args, **init_kwargs) ]
     return sync_wait(func(*init_args, **init_kwargs))
 
 def sync_wait(generator):
-- 
2.43.0


From 663025267aed4d1aa637375a23f4f29bef829af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:22 +0000
Subject: [PATCH 36/46] fix: a coroutine that ends with an asynchronous
 operation has its result, not its token

---
 src/infi/asi/coroutines/sync_adapter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/infi/asi/coroutines/sync_adapter.py b/src/infi/asi/coroutines/sync_adapter.py
index 88dc50a..92f491b 100755
--- a/src/infi/asi/coroutines/sync_adapter.py
+++ b/src/infi/asi/coroutines/sync_adapter.py
@@ -62,12 +62,12 @@ class AsyncCoroutine(Coroutine):
     def async_io_complete(self):
         """ Callback for reactor to signal that a blocking async IO has been completed """
         # current self.result is an Async IO Token, we can ask for its result now and continue with the stack
-        self.args = self.result.get_result()
+        self.args = self.result = self.result.get_result()
 
 class SyncCoroutine(Coroutine):
     def _handle_async_io_token(self):
         # we just ask for a synhronous result from self.result which is the Async IO Token, and then continue
-        self.args = self.result.get_result(block=True)
+        self.args = self.result = self.result.get_result(block=True)
         return True
 
 def sync_call(func, *init_args, **init_kwargs):
-- 
2.43.0


From 0b46691df063d9b2349dae291b5f6583aa4d2aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:53 +0000
Subject: [PATCH 37/46] fix: a failing asynchronous operation is raised in the
 coroutine that waits for it

---
 src/infi/asi/coroutines/sync_adapter.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/infi/asi/coroutines/sync_adapter.py b/src/infi/asi/coroutines/sync_adapter.py
index 92f491b..47dfdb1 100755
--- a/src/infi/asi/coroutines/sync_adapter.py
+++ b/src/infi/asi/coroutines/sync_adapter.py
@@ -15,6 +15,14 @@ class Coroutine(object):
     def _handle_async_io_token(self):
         raise NotImplementedError()
 
+    def _set_token_result(self, **kwargs):
+        """ the result of the async IO, or its failure, goes to the generator that yielded the token """
+        try:
+            self.args = self.result = self.result.get_result(**kwargs)
+        except Exception as e:
+            self.tb = sys.exc_info()[2]
+            self.args = e
+
     def _next_step(self):
         """ invokes next generator in stack. returns False if execution should stop """
         try:
@@ -62,12 +70,12 @@ class AsyncCoroutine(Coroutine):
     def async_io_complete(self):
         """ Callback for reactor to signal that a blocking async IO has been completed """
         # current self.result is an Async IO Token, we can ask for its result now and continue with the stack
-        self.args = self.result = self.result.get_result()
+        self._set_token_result()
 
 class SyncCoroutine(Coroutine):
     def _handle_async_io_token(self):
         # we just ask for a synhronous result from self.result which is the Async IO Token, and then continue
-        self.args = self.result = self.result.get_result(block=True)
+        self._set_token_result(block=True)
         return True
 
 def sync_call(func, *init_args, **init_kwargs):
-- 
2.43.0


From 456fff17021c2c832ff063ab86bead67c077a0b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:53 +0000
Subject: [PATCH 38/46] fix: an overlapped operation that fails is not a
 success

---
 src/infi/asi/win32.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/infi/asi/win32.py b/src/infi/asi/win32.py
index 2b3ce44..16b7b32 100755
--- a/src/infi/asi/win32.py
+++ b/src/infi/asi/win32.py
@@ -146,7 +146,8 @@ class WinAsyncIOToken(OSAsyncIOToken):
     def get_result(self, block=False):
         result = c_ulong()
         overlapped_struct = overlapped_struct_from_event(self.event)
-        err = kernel32.GetOverlappedResult(self.handle, byref(self.overlapped), byref(result), block)
+        if not kernel32.GetOverlappedResult(self.handle, byref(self.overlapped), byref(result), block):
+            raise AsiWin32OSError(GetLastError(), "GetOverlappedResult failed")
         return result
 
 class Win32AsyncFile(OSAsyncFile, Win32File):
-- 
2.43.0


From f3b16590ee946e32b7bf36cd216252602a72ef12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:53 +0000
Subject: [PATCH 39/46] fix: an overlapped operation that completes
 synchronously is not a failure

---
 src/infi/asi/win32.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/infi/asi/win32.py b/src/infi/asi/win32.py
index 16b7b32..c4a6f2f 100755
--- a/src/infi/asi/win32.py
+++ b/src/infi/asi/win32.py
@@ -165,7 +165,8 @@ class Win32AsyncFile(OSAsyncFile, Win32File):
         api_result = DeviceIoControl(self.handle, control_code, input, input_size, output, output_size,
                                      None, byref(self._overlapped_struct))
         last_error = GetLastError()
-        if not api_result and last_error == ERROR_IO_PENDING:
+        # the event is signaled also for an operation that was completed synchronously
+        if api_result or last_error == ERROR_IO_PENDING:
             token = WinAsyncIOToken(self.handle, self._overlapped_struct, self._windows_event_handle)
             yield token
         else:
-- 
2.43.0


From b7ddf73fdb10ca9244b0ee50cc9cabb968e653e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:45 +0000
Subject: [PATCH 40/46] fix: an interrupted wait for an asynchronous operation
 is raised in the coroutine that waits

---
 src/infi/asi/coroutines/sync_adapter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/asi/coroutines/sync_adapter.py b/src/infi/asi/coroutines/sync_adapter.py
index 47dfdb1..e676b94 100755
--- a/src/infi/asi/coroutines/sync_adapter.py
+++ b/src/infi/asi/coroutines/sync_adapter.py
@@ -19,7 +19,7 @@ class Coroutine(object):
         """ the result of the async IO, or its failure, goes to the generator that yielded the token """
         try:
             self.args = self.result = self.result.get_result(**kwargs)
-        except Exception as e:
+        except BaseException as e:
             self.tb = sys.exc_info()[2]
             self.args = e
 
-- 
2.43.0


From b528ccafb556f5dea542cbed7bbdfd4cf6c1df25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:33 +0000
Subject: [PATCH 41/46] fix: each command has its own CONTROL byte, setting it
 in one no longer sets it in all others

---
 src/infi/asi/cdb/__init__.py            | 7 +++++++
 src/infi/asi/cdb/control.py             | 7 +++++++
 src/infi/asi/cdb/diagnostic/__init__.py | 2 +-
 src/infi/asi/cdb/log_sense.py           | 2 +-
 src/infi/asi/cdb/persist/input.py       | 2 +-
 src/infi/asi/cdb/persist/output.py      | 2 +-
 6 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/infi/asi/cdb/__init__.py b/src/infi/asi/cdb/__init__.py
index aff5064..d6d7ad9 100644
--- a/src/infi/asi/cdb/__init__.py
+++ b/src/infi/asi/cdb/__init__.py
@@ -1,5 +1,6 @@
 from infi.instruct import *
 from infi.instruct.buffer import Buffer
+from .control import DEFAULT_CONTROL_BUFFER
 
 
 class CDB(Struct):
@@ -13,6 +14,12 @@ class CDB(Struct):
 
 
 class CDBBuffer(Buffer):
+    def __init__(self, **kwargs):
+        super(CDBBuffer, self).__init__(**kwargs)
+        # the default is shared by all commands, each gets its own copy
+        if getattr(self, 'control', None) is DEFAULT_CONTROL_BUFFER:
+            self.control = DEFAULT_CONTROL_BUFFER.copy()
+
     def create_datagram(self):
         return self.pack()
 
diff --git a/src/infi/asi/cdb/control.py b/src/infi/asi/cdb/control.py
index 96b3667..0487637 100644
--- a/src/infi/asi/cdb/control.py
+++ b/src/infi/asi/cdb/control.py
@@ -11,6 +11,10 @@ class Control(Struct):
         BitField("vendor_specific", 2),  # 6-7: vendor specific
     )
 
+    # a field makes each object its own copy of a default that can be copied
+    def copy(self):
+        return type(self)(vendor_specific=self.vendor_specific, naca=self.naca)
+
 DEFAULT_CONTROL = Control(vendor_specific=0, naca=0)
 
 
@@ -18,4 +22,7 @@ class ControlBuffer(Buffer):
     naca = be_int_field(where=bytes_ref[0].bits[2:3])
     vendor_specific = be_int_field(where=bytes_ref[0].bits[6:8])
 
+    def copy(self):
+        return type(self)(vendor_specific=self.vendor_specific, naca=self.naca)
+
 DEFAULT_CONTROL_BUFFER = ControlBuffer(vendor_specific=0, naca=0)
diff --git a/src/infi/asi/cdb/diagnostic/__init__.py b/src/infi/asi/cdb/diagnostic/__init__.py
index c9f59ec..b0f5be9 100644
--- a/src/infi/asi/cdb/diagnostic/__init__.py
+++ b/src/infi/asi/cdb/diagnostic/__init__.py
@@ -11,7 +11,7 @@ class ReceiveDiagnosticResultCommand(CDBBuffer):
     pcv = be_int_field(where=bytes_ref[1].bits[0])
     page_code = be_uint_field(where=bytes_ref[2])
     allocation_length = be_int_field(where=bytes_ref[3:5], sign='unsigned')
-    control = buffer_field(type=ControlBuffer, where=bytes_ref[5], set_before_pack=DEFAULT_CONTROL_BUFFER)
+    control = buffer_field(type=ControlBuffer, where=bytes_ref[5], default=DEFAULT_CONTROL_BUFFER)
 
     def __init__(self, result_class, conf_page, *args, **kwargs):
         super(ReceiveDiagnosticResultCommand, self).__init__(*args, **kwargs)
diff --git a/src/infi/asi/cdb/log_sense.py b/src/infi/asi/cdb/log_sense.py
index d7a55f2..332c72c 100644
--- a/src/infi/asi/cdb/log_sense.py
+++ b/src/infi/asi/cdb/log_sense.py
@@ -13,7 +13,7 @@ class LogSenseCommand(CDBBuffer):
     subpage_code = be_uint_field(where=bytes_ref[3])
     parameter_pointer = be_uint_field(where=bytes_ref[5:7])
     allocation_length = be_uint_field(where=bytes_ref[7:9])
-    control = buffer_field(type=ControlBuffer, where=bytes_ref[9], set_before_pack=DEFAULT_CONTROL_BUFFER)
+    control = buffer_field(type=ControlBuffer, where=bytes_ref[9], default=DEFAULT_CONTROL_BUFFER)
 
     def __init__(self, page_code, subpage_code=0, allocation_length=396):
         assert 0 <= page_code <= 0x3f, "wrong page_code value {}".format(page_code)
diff --git a/src/infi/asi/cdb/persist/input.py b/src/infi/asi/cdb/persist/input.py
index d3a2bf3..62edea4 100644
--- a/src/infi/asi/cdb/persist/input.py
+++ b/src/infi/asi/cdb/persist/input.py
@@ -128,7 +128,7 @@ class PersistentReserveInCommand(CDBBuffer):
     operation_code = be_uint_field(where=bytes_ref[0], set_before_pack=CDB_OPCODE_PERSISTENT_RESERVE_IN)
     service_action = be_uint_field(where=bytes_ref[1].bits[0:5])
     allocation_length = be_uint_field(where=bytes_ref[7:9])
-    control = buffer_field(type=ControlBuffer, where=bytes_ref[9], set_before_pack=DEFAULT_CONTROL_BUFFER)
+    control = buffer_field(type=ControlBuffer, where=bytes_ref[9], default=DEFAULT_CONTROL_BUFFER)
 
     def __init__(self, service_action, allocation_length=520, **kwargs):
         super(PersistentReserveInCommand, self).__init__(
diff --git a/src/infi/asi/cdb/persist/output.py b/src/infi/asi/cdb/persist/output.py
index c41d16c..e9242be 100644
--- a/src/infi/asi/cdb/persist/output.py
+++ b/src/infi/asi/cdb/persist/output.py
@@ -80,7 +80,7 @@ class PersistentReserveOutCommand(CDBBuffer):
     pr_type = be_uint_field(where=bytes_ref[2].bits[0:4])
     scope = be_uint_field(where=bytes_ref[3].bits[4:8], set_before_pack=0)
     parameter_list_length = be_uint_field(where=bytes_ref[5:9])
-    control = buffer_field(type=ControlBuffer, where=bytes_ref[9], set_before_pack=DEFAULT_CONTROL_BUFFER)
+    control = buffer_field(type=ControlBuffer, where=bytes_ref[9], default=DEFAULT_CONTROL_BUFFER)
 
     def __init__(self, service_action, reservation_key=0, service_action_reservation_key=0,
                  pr_type=PERSISTENT_RESERVE_OUT_TYPES.WRITE_EXCLUSIVE, **kwargs):
-- 
2.43.0


From 247e84e82e2a391309b00d1346dfef3a565753ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:31 +0000
Subject: [PATCH 42/46] fix: close the event of an overlapped operation once it
 is complete

---
 src/infi/asi/win32.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/infi/asi/win32.py b/src/infi/asi/win32.py
index c4a6f2f..39ce37d 100755
--- a/src/infi/asi/win32.py
+++ b/src/infi/asi/win32.py
@@ -38,6 +38,7 @@ DWORD WINAPI GetLastError(void);
 """
 GetLastError = kernel32.GetLastError
 
+ERROR_IO_INCOMPLETE = 996
 ERROR_IO_PENDING = 997
 
 """
@@ -147,7 +148,11 @@ class WinAsyncIOToken(OSAsyncIOToken):
         result = c_ulong()
         overlapped_struct = overlapped_struct_from_event(self.event)
         if not kernel32.GetOverlappedResult(self.handle, byref(self.overlapped), byref(result), block):
-            raise AsiWin32OSError(GetLastError(), "GetOverlappedResult failed")
+            last_error = GetLastError()
+            if last_error != ERROR_IO_INCOMPLETE:
+                CloseHandle(c_void_p(self.event))
+            raise AsiWin32OSError(last_error, "GetOverlappedResult failed")
+        CloseHandle(c_void_p(self.event))
         return result
 
 class Win32AsyncFile(OSAsyncFile, Win32File):
@@ -170,7 +175,8 @@ class Win32AsyncFile(OSAsyncFile, Win32File):
             token = WinAsyncIOToken(self.handle, self._overlapped_struct, self._windows_event_handle)
             yield token
         else:
-            raise AsiWin32OSError(GetLastError(), "DeviceIoControl %d for path %s failed" % (control_code, self.path))
+            CloseHandle(c_void_p(self._windows_event_handle))
+            raise AsiWin32OSError(last_error, "DeviceIoControl %d for path %s failed" % (control_code, self.path))
 
 def WaitForMultipleObjects(events):
     from struct import pack
-- 
2.43.0


From 438d18acdaff1c1175373130c8587e71342480bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:02 +0000
Subject: [PATCH 43/46] fix: ioctl executers with a queue of more than one
 command

---
 src/infi/asi/aix.py     | 13 +++++++------
 src/infi/asi/linux.py   |  9 +++++----
 src/infi/asi/solaris.py | 16 ++++++++--------
 3 files changed, 20 insertions(+), 18 deletions(-)

diff --git a/src/infi/asi/aix.py b/src/infi/asi/aix.py
index 63643a8..0f2731b 100644
--- a/src/infi/asi/aix.py
+++ b/src/infi/asi/aix.py
@@ -312,6 +312,7 @@ class sc_passthru(Structure):
         memset(buf, 0, sizeof(sc_passthru))
         scsicmd = sc_passthru.from_buffer(buf)
         scsicmd.source_buffer = buf
+        scsicmd.packet_id = pack_id
         scsicmd.version = SCSI_VERSION_2
         scsicmd.init_sense_buffer()
         scsicmd.init_command_buffer(command.command)
@@ -373,6 +374,7 @@ class AixCommandExecuter(CommandExecuterBase):
         super(AixCommandExecuter, self).__init__(max_queue_size)
         self.io = io
         self.timeout = timeout
+        self.responses = []
 
     def _os_prepare_to_send(self, command, packet_index):
         return sc_passthru.create(packet_index, self.io, command, self.timeout)
@@ -388,13 +390,12 @@ class AixCommandExecuter(CommandExecuterBase):
             elif os_data.status_validity == 0:
                 # no valid status to parse in _handle_raw_response
                 raise AsiOSError("ioctl failed, no valid status")
-        self.buffer = os_data.to_raw()
-        yield len(self.buffer)
+        self.responses.append((os_data.to_raw(), os_data.packet_id))
+        yield len(os_data.to_raw())
 
-    def _handle_raw_response(self, raw):
+    def _handle_raw_response(self, raw, packet_id=0):
         response_cmd = sc_passthru.from_string(raw)
 
-        packet_id = 0
         request_cmd = self._get_os_data(packet_id)
 
         if response_cmd.status_validity != 0:
@@ -415,5 +416,5 @@ class AixCommandExecuter(CommandExecuterBase):
         return (data, packet_id)
 
     def _os_receive(self):
-        raw = yield self.buffer
-        yield self._handle_raw_response(raw)
+        raw, packet_id = yield self.responses.pop(0)
+        yield self._handle_raw_response(raw, packet_id)
diff --git a/src/infi/asi/linux.py b/src/infi/asi/linux.py
index 17effc6..d3bb026 100644
--- a/src/infi/asi/linux.py
+++ b/src/infi/asi/linux.py
@@ -282,14 +282,15 @@ class LinuxIoctlCommandExecuter(LinuxCommandExecuter):
         super(LinuxIoctlCommandExecuter, self).__init__(io, max_queue_size, timeout)
         self.io = io
         self.timeout = timeout
+        self.responses = []
 
     def _os_send(self, os_data):
         from fcntl import ioctl
-        self.buffer = os_data.to_raw()
         # the buffer is immutable, the response is what ioctl returns
-        self.buffer = gevent_friendly(ioctl)(self.io.fd, SG_IO, self.buffer)
-        yield len(self.buffer)
+        response = gevent_friendly(ioctl)(self.io.fd, SG_IO, os_data.to_raw())
+        self.responses.append(response)
+        yield len(response)
 
     def _os_receive(self):
-        raw = yield self.buffer
+        raw = yield self.responses.pop(0)
         yield self._handle_raw_response(raw)
diff --git a/src/infi/asi/solaris.py b/src/infi/asi/solaris.py
index b24f09d..7a6e127 100644
--- a/src/infi/asi/solaris.py
+++ b/src/infi/asi/solaris.py
@@ -155,6 +155,7 @@ class SCSICMD(Structure):
         memset(buf, 0, sizeof(SCSICMD))
         scsicmd = SCSICMD.from_buffer(buf)
         scsicmd.source_buffer = buf
+        scsicmd.packet_id = pack_id
         scsicmd.init_sense_buffer()
         scsicmd.init_command_buffer(command.command)
         scsicmd.uscsi_timeout = timeout
@@ -189,25 +190,24 @@ class SolarisCommandExecuter(CommandExecuterBase):
         super(SolarisCommandExecuter, self).__init__(max_queue_size)
         self.io = io
         self.timeout = timeout
+        self.responses = []
 
     def _os_prepare_to_send(self, command, packet_index):
         return SCSICMD.create(packet_index, command, self.timeout)
 
     def _os_send(self, os_data):
         from fcntl import ioctl
-        self.buffer = os_data.to_raw()
         # IMPORTANT: we must pass a ctypes string for the ioctl, and not just a
         # string, otherwise the ioctl won't be able to modify relevant status
         # values in the buffer (e.g. uscsi_status):
-        buffer_ctypes_string = create_string_buffer(self.buffer)
+        buffer_ctypes_string = create_string_buffer(os_data.to_raw())
         gevent_friendly(ioctl)(self.io.fd, USCSICMD, buffer_ctypes_string)
-        self.buffer = buffer_ctypes_string.raw
-        yield len(self.buffer)
+        self.responses.append((buffer_ctypes_string.raw, os_data.packet_id))
+        yield len(buffer_ctypes_string.raw)
 
-    def _handle_raw_response(self, raw):
+    def _handle_raw_response(self, raw, packet_id=0):
         response_cmd = SCSICMD.from_string(raw)
 
-        packet_id = 0
         request_cmd = self._get_os_data(packet_id)
         response_status_code = response_cmd.uscsi_status & 0xFF
         response_reason_code = (response_cmd.uscsi_status << 8) & 0xFF
@@ -232,5 +232,5 @@ class SolarisCommandExecuter(CommandExecuterBase):
         return (data, packet_id)
 
     def _os_receive(self):
-        raw = yield self.buffer
-        yield self._handle_raw_response(raw)
+        raw, packet_id = yield self.responses.pop(0)
+        yield self._handle_raw_response(raw, packet_id)
-- 
2.43.0


From 22b3cf9395ee2f3acb45d471d7c517811452c9f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:33 +0000
Subject: [PATCH 44/46] fix: the error for a driver status tells the driver and
 the host status, not the SCSI status in their place

---
 src/infi/asi/linux.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/infi/asi/linux.py b/src/infi/asi/linux.py
index d3bb026..d9d1045 100644
--- a/src/infi/asi/linux.py
+++ b/src/infi/asi/linux.py
@@ -251,8 +251,8 @@ class LinuxCommandExecuter(CommandExecuterBase):
 
         if (response_sgio.driver_status & 0x0F) != 0:
             error = AsiSCSIError("SCSI driver response status is not zero: %s (host status: %s)" %
-                                (prettify_status(response_sgio.status, SCSI_STATUS_CODES),
-                                 prettify_status(response_sgio.driver_status & 0x0f, DRIVER_STATUS_CODES)))
+                                (prettify_status(response_sgio.driver_status & 0x0f, DRIVER_STATUS_CODES),
+                                 prettify_status(response_sgio.host_status, HOST_STATUS_CODES)))
             return (error, packet_id)
 
         if response_sgio.host_status != 0:
-- 
2.43.0


From 96ded75df56d94c3c35d8e1b1b8cb21e78f8cff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:33 +0000
Subject: [PATCH 45/46] fix: the reason in Solaris errors is the high byte of
 the status

---
 src/infi/asi/solaris.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/asi/solaris.py b/src/infi/asi/solaris.py
index 7a6e127..c5b68b8 100644
--- a/src/infi/asi/solaris.py
+++ b/src/infi/asi/solaris.py
@@ -210,7 +210,7 @@ class SolarisCommandExecuter(CommandExecuterBase):
 
         request_cmd = self._get_os_data(packet_id)
         response_status_code = response_cmd.uscsi_status & 0xFF
-        response_reason_code = (response_cmd.uscsi_status << 8) & 0xFF
+        response_reason_code = (response_cmd.uscsi_status >> 8) & 0xFF
 
         if response_status_code & SCSI_STATUS_CODES['SCSI_STATUS_CHECK_CONDITION']:
             logger.debug("response_cmd.status = 0x{:x}".format(response_cmd.uscsi_status))
-- 
2.43.0


From 70adc73832e9c470c687fb0ce21389dd57de816a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:33 +0000
Subject: [PATCH 46/46] fix: the AIX mask of useful status bits keeps those of
 TASK ABORTED and TASK SET FULL

---
 src/infi/asi/aix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/asi/aix.py b/src/infi/asi/aix.py
index 0f2731b..d37f654 100644
--- a/src/infi/asi/aix.py
+++ b/src/infi/asi/aix.py
@@ -193,7 +193,7 @@ SCSI_VERSION_4 = 0x04
 SC_QUIESCE_IO =  0x0          # Quiesce device before issuing
 SC_MIX_IO =      0x1          # Do not quiesce device before
 
-SCSI_STATUS_MASK = 0x1e  # mask for useful bits
+SCSI_STATUS_MASK = 0x7e  # mask for useful bits
 
 ADAPTER_STATUS_CODES = dict(
      SCSI_HOST_IO_BUS_ERR =      0x01,  # indicates a Host I/O Bus error
-- 
2.43.0

