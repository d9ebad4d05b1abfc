From 7995bfe4f84c4fec64c46e43ba78061994743fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:21 +0000
Subject: [PATCH 01/21] fix: return the message buffer to the free queue when a
 request is refused

A request with an illegal quantity popped a buffer from the free queue and
never gave it back, so after a few refused calls the master could not accept
any request until it was re-initialised.
---
 src/modbus_master.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/modbus_master.c b/src/modbus_master.c
index f732571..72a8188 100644
--- a/src/modbus_master.c
+++ b/src/modbus_master.c
@@ -492,11 +492,13 @@ static modbus_master_req_ret_t generate_request(req_input_param_struct_t *req_pa
     modbus_lib_ret = generate_request_PDU_data(req_msg_buf, req_param);
     if (0 > modbus_lib_ret)
     {
+        modbus_queue_push(free_q, &req_msg_buf);
         return MODBUS_MASTER_LIB_PDU_REQ_ERROR;
     }
     modbus_lib_ret = modbus_RTU_send(req_msg_buf->req.data, &req_msg_buf->req.len, req_param->slave_ID);
     if (RET_ERROR == modbus_lib_ret)
     {
+        modbus_queue_push(free_q, &req_msg_buf);
         return MODBUS_MASTER_LIB_RTU_SEND_ERROR;
     }
     // req_msg_buf->resp.len=0; // it's allways done before sending every buffer to modbus driver
-- 
2.43.0


From 73136e954e656dbb143cf33a9cb303bc9fc4aa2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:41 +0000
Subject: [PATCH 02/21] fix: detect the response timeout also when the poll at
 expiry is missed

The timeout was recognised only if the main loop polled while the timer was
exactly 1, i.e. within one particular millisecond. A poll one tick later found
0 and the master waited for a reply for ever.
---
 src/modbus_master.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/modbus_master.c b/src/modbus_master.c
index 72a8188..6d7b29c 100644
--- a/src/modbus_master.c
+++ b/src/modbus_master.c
@@ -683,7 +683,7 @@ static void modbus_master_transmitting_state_handling(void)
  * and flags related to Modbus communication:
  * - If `MODBUS_MASTER_TIMER_1_5_CHAR_FLAG` is set, it calls
  *   `modbus_master_RTU_recv_state_handle` to handle the reception of Modbus data.
- * - If `modbus_master_resp_timeout_timer` equals 1, indicating a response timeout,
+ * - If `modbus_master_resp_timeout_timer` has run down to 1 or below, indicating a response timeout,
  *   it calls `modbus_master_resp_timeout_handle` to handle the timeout error
  *   and subsequently ends the message processing using `modbus_master_msg_process_end`.
  */
@@ -693,7 +693,7 @@ static void modbus_master_resp_waiting_state_handling(void)
     {
         modbus_master_RTU_recv_state_handle();
     }
-    else if (1 == modbus_master_resp_timeout_timer)
+    else if (1 >= modbus_master_resp_timeout_timer)
     {
         modbus_master_resp_timeout_handle();
         modbus_master_msg_process_end();
-- 
2.43.0


From f2dbe04a86fb97505f7c3e2615f499bc763e39fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:42 +0000
Subject: [PATCH 03/21] fix: mark the transmission as running before starting
 it

Master and slave set their transmission flag after the driver's send() had
returned. A transmit-done callback that came earlier (blocking driver, or a
main loop held up by interrupts) was overwritten and the node stayed in its
transmitting state for ever.
---
 src/modbus_master.c | 4 ++--
 src/modbus_slave.c  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/modbus_master.c b/src/modbus_master.c
index 6d7b29c..04ccac7 100644
--- a/src/modbus_master.c
+++ b/src/modbus_master.c
@@ -401,10 +401,10 @@ void update_modbus_master_timout_timer(void)
  */
 static void modbus_master_send_req_from_msg_buf(void)
 {
-    RTU_driver->send(msg_buf->req.data, msg_buf->req.len);
-    RTU_driver->enable_rcev(&msg_buf->resp);
     MODBUS_MASTER_REQ_TRANSMITION_FLAG = MODBUS_FLAG_SET;
     modbus_master_manager_state_machine = MODBUS_MASTER_TRANSMITTING_REQ;
+    RTU_driver->send(msg_buf->req.data, msg_buf->req.len);
+    RTU_driver->enable_rcev(&msg_buf->resp);
 }
 
 /**
diff --git a/src/modbus_slave.c b/src/modbus_slave.c
index 957927a..c5fb4ce 100644
--- a/src/modbus_slave.c
+++ b/src/modbus_slave.c
@@ -194,10 +194,10 @@ static void handle_modbus_slave_msg_recived_state(void)
     {
         parse_master_request_and_prepare_resp(slave_msg_ptr);
         modbus_RTU_send(slave_msg_ptr->resp.data, &slave_msg_ptr->resp.len, modbus_slave_ID);
-        slave_RTU_driver->send(slave_msg_ptr->resp.data, slave_msg_ptr->resp.len);
         RESP_TRANSMITION_FLAG = MODBUS_FLAG_SET;
         slave_manager_state_machine = MODBUS_SLAVE_TRANSMITTING_RESP;
         TIMER_3_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;
+        slave_RTU_driver->send(slave_msg_ptr->resp.data, slave_msg_ptr->resp.len);
     }
     else
     {
-- 
2.43.0


From 346994979f007a86898aa0fb3d7798778be3a4c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:32 +0000
Subject: [PATCH 04/21] fix: start every master exchange with a clean reception
 state

Timer and error flags and the reply length were carried over between attempts
and between requests: a stale 1.5 character, frame error or CRC error flag made
a good reply count as damaged (spurious retransmission of writes, false error
report). The reply length was only reset when the main loop noticed the end of
transmission, which wiped a reply that had already begun to arrive.
---
 src/modbus_master.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/modbus_master.c b/src/modbus_master.c
index 04ccac7..f4a5aed 100644
--- a/src/modbus_master.c
+++ b/src/modbus_master.c
@@ -404,6 +404,12 @@ static void modbus_master_send_req_from_msg_buf(void)
     MODBUS_MASTER_REQ_TRANSMITION_FLAG = MODBUS_FLAG_SET;
     modbus_master_manager_state_machine = MODBUS_MASTER_TRANSMITTING_REQ;
     RTU_driver->send(msg_buf->req.data, msg_buf->req.len);
+    // nothing received before this request was sent belongs to its response
+    msg_buf->resp.len = 0;
+    MODBUS_MASTER_TIMER_1_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;
+    MODBUS_MASTER_TIMER_3_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;
+    MODBUS_MASTER_FRAME_ERROR_FLAG = MODBUS_FLAG_CLEARED;
+    MODBUS_MASTER_RTU_CRC_ERROR_FLAG = MODBUS_FLAG_CLEARED;
     RTU_driver->enable_rcev(&msg_buf->resp);
 }
 
@@ -670,7 +676,6 @@ static void modbus_master_transmitting_state_handling(void)
 {
     if (MODBUS_FLAG_CLEARED == MODBUS_MASTER_REQ_TRANSMITION_FLAG)
     {
-        msg_buf->resp.len = 0;
         modbus_master_enable_resp_timeout_timer();
         modbus_master_manager_state_machine = MODBUS_MASTER_RESP_WAITING;
     }
-- 
2.43.0


From 62d016a529d0a17b20edb58c983622078e94b8a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:33 +0000
Subject: [PATCH 05/21] fix: do not lose the 3.5 character event when the
 master polls late

If both the 1.5 and the 3.5 character times had expired before the main loop
ran, handling the first discarded the second and the master waited for it for
ever, with its response timeout already switched off. The 3.5 character flag
is now reset when a new 1.5 character silence is seen, not when it is handled.
---
 src/modbus_master.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/modbus_master.c b/src/modbus_master.c
index f4a5aed..0b29e16 100644
--- a/src/modbus_master.c
+++ b/src/modbus_master.c
@@ -593,6 +593,8 @@ static void modbus_master_req_sended_callback(void)
  */
 static void modbus_master_T_1_5_char_expired_callback(void)
 {
+    // 3.5 char silence after the bytes received so far has not been seen yet
+    MODBUS_MASTER_TIMER_3_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;
     MODBUS_MASTER_TIMER_1_5_CHAR_FLAG = MODBUS_FLAG_SET;
 }
 
@@ -734,8 +736,8 @@ void modbus_master_resp_timeout_handle(void)
  * @brief Handles the state when a Modbus RTU response is received.
  *
  * This function processes the response received from the Modbus RTU interface:
- * - Resets the MODBUS_MASTER_TIMER_1_5_CHAR_FLAG and MODBUS_MASTER_TIMER_3_5_CHAR_FLAG
- *   indicating the end of the response reception timing.
+ * - Resets the MODBUS_MASTER_TIMER_1_5_CHAR_FLAG. MODBUS_MASTER_TIMER_3_5_CHAR_FLAG is left as it is,
+ *   because the 3.5 character time may already have expired as well.
  * - Calls modbus_RTU_recv to interpret the response and determines the RTU_status.
  * - If RTU_status indicates a CRC error (RET_ERROR_CRC):
  *   - Disables the Modbus response timeout timer.
@@ -752,7 +754,6 @@ static void modbus_master_RTU_recv_state_handle(void)
     modbus_ret_t RTU_status;
     modbus_device_ID_t modbus_req_slave_ID = msg_buf->req.data[MODBUS_SLAVE_ADR_IDX];
     MODBUS_MASTER_TIMER_1_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;
-    MODBUS_MASTER_TIMER_3_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;
     RTU_status = modbus_RTU_recv(msg_buf->resp.data, msg_buf->resp.len, modbus_req_slave_ID);
     if (RET_ERROR_CRC == RTU_status)
     {
-- 
2.43.0


From 52477064b785a1561b3300bba6a2e84c7f080bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:52 +0000
Subject: [PATCH 06/21] fix: leave no stale reception flags behind in the slave

A second 1.5 character event before the 3.5 character one (every frame error
causes it) survived the return to idle. The slave then took an empty frame for
a bad one and discarded the next good request, which again left a stale flag
behind: one gap inside a frame made the slave deaf for good. Flags are now
cleared together with the receive length, and the 3.5 character flag always
belongs to the last 1.5 character silence.
---
 src/modbus_slave.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/modbus_slave.c b/src/modbus_slave.c
index c5fb4ce..0044dad 100644
--- a/src/modbus_slave.c
+++ b/src/modbus_slave.c
@@ -188,6 +188,7 @@ static void handle_modbus_slave_msg_recived_state(void)
         slave_msg_ptr->req.len = 0;
         slave_manager_state_machine = MODBUS_SLAVE_IDLE;
         FRAME_ERROR_FLAG = MODBUS_FLAG_CLEARED;
+        TIMER_1_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;
         TIMER_3_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;
     }
     else if ((MODBUS_FLAG_CLEARED == FRAME_ERROR_FLAG) && (MODBUS_FLAG_SET == TIMER_3_5_CHAR_FLAG))
@@ -218,6 +219,9 @@ static void handle_modbus_slave_transmitting_resp_state(void)
         slave_manager_state_machine = MODBUS_SLAVE_IDLE;
         slave_msg_ptr->resp.len = 0;
         slave_msg_ptr->req.len = 0;
+        FRAME_ERROR_FLAG = MODBUS_FLAG_CLEARED;
+        TIMER_1_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;
+        TIMER_3_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;
     }
 }
 
@@ -337,6 +341,8 @@ static void modbus_resp_send_callback(void)
  */
 static void modbus_T_1_5_char_expired_callback(void)
 {
+    // 3.5 char silence after the bytes received so far has not been seen yet
+    TIMER_3_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;
     TIMER_1_5_CHAR_FLAG = MODBUS_FLAG_SET;
 }
 
-- 
2.43.0


From 8d53d3194852f0c527d092568f1be5155d3dbf7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:14 +0000
Subject: [PATCH 07/21] fix: enable slave reception last and with an empty
 buffer

Re-initialising the slave while a request was being received kept the bytes
received so far, so the next good request was appended to them and lost.
Reception was also enabled before the callbacks were subscribed and before the
event flags were reset, which could discard the first events after init.
---
 src/modbus_slave.c | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/modbus_slave.c b/src/modbus_slave.c
index 0044dad..f5085b8 100644
--- a/src/modbus_slave.c
+++ b/src/modbus_slave.c
@@ -50,6 +50,7 @@ static void init_modbus_data_buffers_and_queues(modbus_mode_t mode);
 static void register_msg_req_resp_data_buffers(modbus_mode_t mode);
 static void init_modbus_driver(modbus_mode_t mode, baud_t baud_rate, parity_t parity);
 static void init_modbus_slave_internall_data(modbus_device_ID_t Slave_ID);
+static void enable_modbus_req_reception(void);
 static void modbus_resp_send_callback(void);
 static void modbus_T_1_5_char_expired_callback(void);
 static void modbus_T_3_5_char_expired_callback(void);
@@ -123,6 +124,7 @@ void modbus_slave_init(modbus_mode_t mode, baud_t baud_rate, parity_t parity, mo
     init_modbus_data_buffers_and_queues(mode);
     init_modbus_driver(mode, baud_rate, parity);
     init_modbus_slave_internall_data(slave_ID);
+    enable_modbus_req_reception();
 }
 
 /**
@@ -289,7 +291,6 @@ static void init_modbus_driver(modbus_mode_t mode, baud_t baud_rate, parity_t pa
     {
         slave_RTU_driver = get_slave_RTU_driver_interface();
         slave_RTU_driver->init(baud_rate, parity);
-        slave_RTU_driver->enable_rcev(&slave_msg_ptr->req);
         slave_RTU_driver->subscribe_msg_tx_done_cb(modbus_resp_send_callback);
         slave_RTU_driver->subscribe_t_1_5_char_expired_cb(modbus_T_1_5_char_expired_callback);
         slave_RTU_driver->subscribe_t_3_5_char_expired_cb(modbus_T_3_5_char_expired_callback);
@@ -322,6 +323,22 @@ static void init_modbus_slave_internall_data(modbus_device_ID_t Slave_ID)
     RESP_TRANSMITION_FLAG = MODBUS_FLAG_CLEARED;
 }
 
+/**
+ * @brief Enables reception of Modbus requests.
+ *
+ * This function starts reception into an empty request buffer. It is called as the last step of the
+ * initialization, when all callbacks are subscribed and all internal data are set up, so that nothing
+ * received before the initialization and no event of the first request is mixed up.
+ */
+static void enable_modbus_req_reception(void)
+{
+    if (NULL != slave_RTU_driver)
+    {
+        slave_msg_ptr->req.len = 0;
+        slave_RTU_driver->enable_rcev(&slave_msg_ptr->req);
+    }
+}
+
 /**
  * @brief Modbus response send callback function.
  *
-- 
2.43.0


From 2b08bf44428f78184f98ce1dd09758ed6201d2cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:54 +0000
Subject: [PATCH 08/21] fix: slave ignores requests whose length does not fit
 the function code

The length of a received frame was only used for the CRC. A CRC-valid frame
shorter than its function code requires was executed with the missing address,
quantity or data taken from an earlier request still in the buffer.
---
 src/common/modbus_type.h |  6 ++++++
 src/modbus_slave.c       | 37 ++++++++++++++++++++++++++++++++++++-
 2 files changed, 42 insertions(+), 1 deletion(-)

diff --git a/src/common/modbus_type.h b/src/common/modbus_type.h
index 46190c6..d2383a2 100644
--- a/src/common/modbus_type.h
+++ b/src/common/modbus_type.h
@@ -32,6 +32,12 @@ extern "C"
 /// Modbus RTU buffer size specification
 #define MODBUS_RTU_BUFFER_SIZE 256U
 
+/// Length of the CRC that closes every Modbus RTU frame
+#define MODBUS_RTU_CRC_LEN 2U
+
+/// Minimum length of Modbus RTU frame: slave address, function code, CRC
+#define MODBUS_RTU_MIN_LEN 4U
+
 /// Maximum length of Modbus PDU
 #define MODBUS_PDU_MAX_LEN 253U
 
diff --git a/src/modbus_slave.c b/src/modbus_slave.c
index f5085b8..b129e8c 100644
--- a/src/modbus_slave.c
+++ b/src/modbus_slave.c
@@ -43,6 +43,7 @@ PRIVATE modbus_status_flag_t FRAME_ERROR_FLAG = MODBUS_FLAG_UNKNOWN;
 PRIVATE modbus_status_flag_t RESP_TRANSMITION_FLAG = MODBUS_FLAG_UNKNOWN;
 
 static void handle_modbus_slave_idle_state(void);
+static bool modbus_req_len_fits_fun_code(const modbus_req_resp_t *req);
 static void handle_modbus_slave_msg_recived_state(void);
 static void handle_modbus_slave_transmitting_resp_state(void);
 static void handle_modbus_slave_default_state(void);
@@ -168,7 +169,7 @@ static void handle_modbus_slave_idle_state(void)
         modbus_ret_t RTU_status;
         TIMER_1_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;
         RTU_status = modbus_RTU_recv(slave_msg_ptr->req.data, slave_msg_ptr->req.len, modbus_slave_ID);
-        if (RTU_status != RET_OK)
+        if ((RTU_status != RET_OK) || (!modbus_req_len_fits_fun_code(&slave_msg_ptr->req)))
         {
             FRAME_ERROR_FLAG = MODBUS_FLAG_SET;
         }
@@ -176,6 +177,40 @@ static void handle_modbus_slave_idle_state(void)
     }
 }
 
+/**
+ * @brief Checks if the length of a received request fits its function code.
+ *
+ * A frame with correct CRC that is shorter than its function code requires must not be processed,
+ * because the missing fields would be taken from whatever an earlier frame left in the buffer.
+ *
+ * @param req Pointer to the received request, including slave address and CRC.
+ * @return true if the request can be processed, false if it has to be ignored.
+ */
+static bool modbus_req_len_fits_fun_code(const modbus_req_resp_t *req)
+{
+    if (MODBUS_RTU_MIN_LEN > req->len)
+    {
+        return false;
+    }
+    switch (req->data[MODBUS_FUNCTION_CODE_IDX])
+    {
+    case MODBUS_READ_COILS_FUNC_CODE:
+    case MODBUS_READ_DISCRETE_INPUTS_FUNC_CODE:
+    case MODBUS_READ_HOLDING_REGISTERS_FUNC_CODE:
+    case MODBUS_READ_INPUT_REGISTERS_FUNC_CODE:
+        return (MODBUS_READ_REQUEST_LEN + MODBUS_RTU_CRC_LEN) == req->len;
+    case MODBUS_WRITE_SINGLE_COIL_FUNC_CODE:
+    case MODBUS_WRITE_SINGLE_REGISTER_FUNC_CODE:
+        return (MODBUS_WRITE_SINGLE_REQUEST_LEN + MODBUS_RTU_CRC_LEN) == req->len;
+    case MODBUS_WRITE_MULTIPLE_COILS_FUNC_CODE:
+    case MODBUS_WRITE_MULTIPLE_REGISTER_FUNC_CODE:
+        return ((MODBUS_WRITE_MULTI_REQUEST_LEN + MODBUS_RTU_CRC_LEN) <= req->len) &&
+               ((MODBUS_WRITE_MULTI_REQUEST_LEN + req->data[MODBUS_REQUEST_BYTE_CNT_IDX] + MODBUS_RTU_CRC_LEN) == req->len);
+    default:
+        return true; // unsupported function code, to be answered with an exception
+    }
+}
+
 /**
  * @brief Handles the Modbus slave state machine in the message received state.
  *
-- 
2.43.0


From 337efac02aaebff59719f31f2980ad6f6fdc4dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:13 +0000
Subject: [PATCH 09/21] fix: master accepts only frames that are a response to
 its request

Any CRC-valid frame from the addressed slave was taken as the response: with
another function code its bytes were reported as other data or as the
confirmation of a write, with a shorter length or another byte count left-over
buffer bytes were reported as values, and an exception for an unknown function
ended the request without any report. Such frames are now ignored like those
of other slaves.
---
 src/modbus_master.c | 49 ++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 48 insertions(+), 1 deletion(-)

diff --git a/src/modbus_master.c b/src/modbus_master.c
index 0b29e16..e6596ab 100644
--- a/src/modbus_master.c
+++ b/src/modbus_master.c
@@ -31,6 +31,7 @@
 #include "modbus_master_RTU.h"
 #include "modbus_queue.h"
 #include "modbus_RTU.h"
+#include "modbus_PDU_common.h"
 #include "modbus_type.h"
 #include "modbus_driver_interface.h"
 #include "modbus_master_data_interface.h"
@@ -83,6 +84,7 @@ static void modbus_master_transmitting_state_handling(void);
 static void modbus_master_resp_waiting_state_handling(void);
 static void modbus_master_resp_timeout_handle(void);
 static void modbus_master_RTU_recv_state_handle(void);
+static bool modbus_master_resp_fits_req(const modbus_msg_t *msg);
 static void modbus_master_resp_recived_state_handling(void);
 
 static void modbus_master_msg_recived_correctly_state_handle(void);
@@ -744,6 +746,7 @@ void modbus_master_resp_timeout_handle(void)
  *   - Sets MODBUS_MASTER_RTU_CRC_ERROR_FLAG to indicate a CRC error occurred.
  *   - Updates modbus_master_manager_state_machine to MODBUS_MASTER_RESP_RECIVED.
  * - If RTU_status indicates an invalid slave ID (RET_ERROR_SLAVE_ID):
+ *   or the frame is not a response to the current request:
  *   - Resets the response length (msg_buf->resp.len) to 0.
  * - If RTU_status is successful (RET_OK):
  *   - Disables the Modbus response timeout timer.
@@ -761,7 +764,7 @@ static void modbus_master_RTU_recv_state_handle(void)
         MODBUS_MASTER_RTU_CRC_ERROR_FLAG = MODBUS_FLAG_SET;
         modbus_master_manager_state_machine = MODBUS_MASTER_RESP_RECIVED;
     }
-    else if (RET_ERROR_SLAVE_ID == RTU_status)
+    else if ((RET_ERROR_SLAVE_ID == RTU_status) || (!modbus_master_resp_fits_req(msg_buf)))
     {
         msg_buf->resp.len = 0;
     }
@@ -772,6 +775,50 @@ static void modbus_master_RTU_recv_state_handle(void)
     }
 }
 
+/**
+ * @brief Checks if a received frame with correct slave ID and CRC is a response to the current request.
+ *
+ * A frame fits if it carries the function code of the request and has the length, byte count or echoed
+ * fields that the request implies, or if it is an exception response to that function code. Anything else
+ * must not be processed as if it was a response, because it would be read as data it does not contain.
+ *
+ * @param msg Pointer to the message with the request and the received frame (both including CRC).
+ * @return true if the received frame is a response to the request, false otherwise.
+ */
+static bool modbus_master_resp_fits_req(const modbus_msg_t *msg)
+{
+    const modbus_buf_t *req = msg->req.data;
+    const modbus_buf_t *resp = msg->resp.data;
+    modbus_data_qty_t data_qty = read_u16_from_buf(&req[MODBUS_REQUEST_QTY_IDX]);
+    modbus_byte_count_t byte_count;
+
+    if ((req[MODBUS_FUNCTION_CODE_IDX] | MODBUS_EXCEPTION_CODE_MASK) == resp[MODBUS_FUNCTION_CODE_IDX])
+    {
+        return (MODBUS_EXCEPTION_CODE_RESP_LEN + MODBUS_RTU_CRC_LEN) == msg->resp.len;
+    }
+    if (req[MODBUS_FUNCTION_CODE_IDX] != resp[MODBUS_FUNCTION_CODE_IDX])
+    {
+        return false;
+    }
+    switch (req[MODBUS_FUNCTION_CODE_IDX])
+    {
+    case MODBUS_READ_COILS_FUNC_CODE:
+    case MODBUS_READ_DISCRETE_INPUTS_FUNC_CODE:
+        byte_count = get_coil_din_byte_count(data_qty);
+        break;
+    case MODBUS_READ_HOLDING_REGISTERS_FUNC_CODE:
+    case MODBUS_READ_INPUT_REGISTERS_FUNC_CODE:
+        byte_count = data_qty * 2;
+        break;
+    default: // response to a write request echoes the address and the value or quantity
+        return ((MODBUS_WRITE_SINGLE_RESP_LEN + MODBUS_RTU_CRC_LEN) == msg->resp.len) &&
+               (read_u16_from_buf(&req[MODBUS_REQUEST_ADR_IDX]) == read_u16_from_buf(&resp[MODBUS_RESP_WRITE_ADR_IDX])) &&
+               (data_qty == read_u16_from_buf(&resp[MODBUS_RESP_WRITE_MULTIPLE_DATA_QTY_IDX]));
+    }
+    return (byte_count == resp[MODBUS_RESP_READ_BYTE_CNT_IDX]) &&
+           ((MODBUS_READ_RESP_LEN + byte_count + MODBUS_RTU_CRC_LEN) == msg->resp.len);
+}
+
 /**
  * @brief Handles the state when a Modbus response is received.
  *
-- 
2.43.0


From b9654a3cb496806ed316338dd438cc29ed8abd13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:14 +0000
Subject: [PATCH 10/21] fix: error reports identify the request that failed

Timeout and communication error reports took the slave ID and function code
from the reply buffer, which holds damaged bytes or a reply to an earlier
request, and communication error reports left address and quantity unset.
---
 src/modbus_master.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/modbus_master.c b/src/modbus_master.c
index e6596ab..ae64a7f 100644
--- a/src/modbus_master.c
+++ b/src/modbus_master.c
@@ -719,7 +719,7 @@ static void modbus_master_resp_waiting_state_handling(void)
  *   - `slave_ID`: Modbus slave address extracted from the request data.
  *   - `data_adr`: Address field from the Modbus request.
  *   - `data_qty`: Quantity field from the Modbus request.
- *   - `fun_conde`: Function code from the Modbus response (if available).
+ *   - `fun_conde`: Function code from the Modbus request.
  *   - `resp_read_error`: Indicates a timeout error (`MODBUS_MASTER_RESP_TIMEOUT_ERR`).
  * - Invokes `modbus_master_data_timeout_error` to handle and report the timeout error.
  */
@@ -729,7 +729,7 @@ void modbus_master_resp_timeout_handle(void)
     timeout_error.slave_ID = msg_buf->req.data[MODBUS_SLAVE_ADR_IDX];
     timeout_error.data_adr = read_u16_from_buf(&msg_buf->req.data[MODBUS_REQUEST_ADR_IDX]);
     timeout_error.data_qty = read_u16_from_buf(&msg_buf->req.data[MODBUS_REQUEST_QTY_IDX]);
-    timeout_error.fun_conde = msg_buf->resp.data[MODBUS_FUNCTION_CODE_IDX];
+    timeout_error.fun_conde = msg_buf->req.data[MODBUS_FUNCTION_CODE_IDX];
     timeout_error.resp_read_error = MODBUS_MASTER_RESP_TIMEOUT_ERR;
     modbus_master_data_timeout_error(&timeout_error);
 }
@@ -896,8 +896,10 @@ static void modbus_master_RTU_CRC_error_state_handling(void)
     {
 
         static modbus_master_error_report_t error_rep;
-        error_rep.slave_ID = msg_buf->resp.data[MODBUS_SLAVE_ADR_IDX];
-        error_rep.fun_conde = (msg_buf->resp.data[MODBUS_FUNCTION_CODE_IDX] & (~MODBUS_EXCEPTION_CODE_MASK));
+        error_rep.slave_ID = msg_buf->req.data[MODBUS_SLAVE_ADR_IDX];
+        error_rep.fun_conde = msg_buf->req.data[MODBUS_FUNCTION_CODE_IDX];
+        error_rep.data_adr = read_u16_from_buf(&msg_buf->req.data[MODBUS_REQUEST_ADR_IDX]);
+        error_rep.data_qty = read_u16_from_buf(&msg_buf->req.data[MODBUS_REQUEST_QTY_IDX]);
         error_rep.resp_read_error = MODBUS_MASTER_RESP_RTU_CRC_ERR;
         modbus_master_communication_error(&error_rep);
         modbus_master_msg_process_end();
@@ -931,8 +933,10 @@ static void modbus_master_frame_error_state_handling(void)
     {
 
         static modbus_master_error_report_t error_rep;
-        error_rep.slave_ID = msg_buf->resp.data[MODBUS_SLAVE_ADR_IDX];
-        error_rep.fun_conde = (msg_buf->resp.data[MODBUS_FUNCTION_CODE_IDX] & (~MODBUS_EXCEPTION_CODE_MASK));
+        error_rep.slave_ID = msg_buf->req.data[MODBUS_SLAVE_ADR_IDX];
+        error_rep.fun_conde = msg_buf->req.data[MODBUS_FUNCTION_CODE_IDX];
+        error_rep.data_adr = read_u16_from_buf(&msg_buf->req.data[MODBUS_REQUEST_ADR_IDX]);
+        error_rep.data_qty = read_u16_from_buf(&msg_buf->req.data[MODBUS_REQUEST_QTY_IDX]);
         error_rep.resp_read_error = MODBUS_MASTER_RESP_FRAME_ERR;
         modbus_master_communication_error(&error_rep);
         modbus_master_msg_process_end();
-- 
2.43.0


From e6352553cb5bf6d25a78baf6aedecadf44021d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:13 +0000
Subject: [PATCH 11/21] fix: clear the 1.5 character flag of the master last

If a complete reply arrived between clearing the 1.5 and the 3.5 character flag
(main loop suspended there), only the 1.5 character flag survived: the frame was
accepted, the timeout timer stopped and the master waited forever for a 3.5
character event that had already been discarded.
---
 src/modbus_master.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/modbus_master.c b/src/modbus_master.c
index ae64a7f..a765531 100644
--- a/src/modbus_master.c
+++ b/src/modbus_master.c
@@ -408,10 +408,11 @@ static void modbus_master_send_req_from_msg_buf(void)
     RTU_driver->send(msg_buf->req.data, msg_buf->req.len);
     // nothing received before this request was sent belongs to its response
     msg_buf->resp.len = 0;
-    MODBUS_MASTER_TIMER_1_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;
     MODBUS_MASTER_TIMER_3_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;
     MODBUS_MASTER_FRAME_ERROR_FLAG = MODBUS_FLAG_CLEARED;
     MODBUS_MASTER_RTU_CRC_ERROR_FLAG = MODBUS_FLAG_CLEARED;
+    // cleared last: 1.5 char flag without the 3.5 char flag that follows it would be waited for forever
+    MODBUS_MASTER_TIMER_1_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;
     RTU_driver->enable_rcev(&msg_buf->resp);
 }
 
-- 
2.43.0


From 37cf4a588324d295dd7bbf1d74262fdd764af2d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:14 +0000
Subject: [PATCH 12/21] fix: clear the 1.5 character flag of the slave last

If a complete request arrived between clearing the 1.5 and the 3.5 character flag
(main loop suspended there), only the 1.5 character flag survived: the request was
accepted but answered only after the 3.5 character event of a later frame.
---
 src/modbus_slave.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/modbus_slave.c b/src/modbus_slave.c
index b129e8c..e699e3a 100644
--- a/src/modbus_slave.c
+++ b/src/modbus_slave.c
@@ -225,8 +225,8 @@ static void handle_modbus_slave_msg_recived_state(void)
         slave_msg_ptr->req.len = 0;
         slave_manager_state_machine = MODBUS_SLAVE_IDLE;
         FRAME_ERROR_FLAG = MODBUS_FLAG_CLEARED;
-        TIMER_1_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;
         TIMER_3_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;
+        TIMER_1_5_CHAR_FLAG = MODBUS_FLAG_CLEARED; // last: it must not survive without the 3.5 char flag that follows it
     }
     else if ((MODBUS_FLAG_CLEARED == FRAME_ERROR_FLAG) && (MODBUS_FLAG_SET == TIMER_3_5_CHAR_FLAG))
     {
@@ -257,8 +257,8 @@ static void handle_modbus_slave_transmitting_resp_state(void)
         slave_msg_ptr->resp.len = 0;
         slave_msg_ptr->req.len = 0;
         FRAME_ERROR_FLAG = MODBUS_FLAG_CLEARED;
-        TIMER_1_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;
         TIMER_3_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;
+        TIMER_1_5_CHAR_FLAG = MODBUS_FLAG_CLEARED; // last: it must not survive without the 3.5 char flag that follows it
     }
 }
 
-- 
2.43.0


From d1570aa6a79bcd02fb15d49d91cbae1376e16713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:32 +0000
Subject: [PATCH 13/21] fix: empty the slave's request buffer last on return to
 idle

A frame heard completely while the main loop was interrupted between emptying
the buffer and clearing the reception flags stayed in the buffer without the
flags that announce it, and the next request was appended to it and lost.
---
 src/modbus_slave.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/modbus_slave.c b/src/modbus_slave.c
index e699e3a..098be5f 100644
--- a/src/modbus_slave.c
+++ b/src/modbus_slave.c
@@ -222,11 +222,11 @@ static void handle_modbus_slave_msg_recived_state(void)
 {
     if ((MODBUS_FLAG_SET == FRAME_ERROR_FLAG) && (MODBUS_FLAG_SET == TIMER_3_5_CHAR_FLAG))
     {
-        slave_msg_ptr->req.len = 0;
         slave_manager_state_machine = MODBUS_SLAVE_IDLE;
         FRAME_ERROR_FLAG = MODBUS_FLAG_CLEARED;
         TIMER_3_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;
-        TIMER_1_5_CHAR_FLAG = MODBUS_FLAG_CLEARED; // last: it must not survive without the 3.5 char flag that follows it
+        TIMER_1_5_CHAR_FLAG = MODBUS_FLAG_CLEARED; // after the others: it must not survive without the 3.5 char flag that follows it
+        slave_msg_ptr->req.len = 0;                // last: no bytes must be left in the buffer without the flag that announces them
     }
     else if ((MODBUS_FLAG_CLEARED == FRAME_ERROR_FLAG) && (MODBUS_FLAG_SET == TIMER_3_5_CHAR_FLAG))
     {
@@ -255,10 +255,10 @@ static void handle_modbus_slave_transmitting_resp_state(void)
     {
         slave_manager_state_machine = MODBUS_SLAVE_IDLE;
         slave_msg_ptr->resp.len = 0;
-        slave_msg_ptr->req.len = 0;
         FRAME_ERROR_FLAG = MODBUS_FLAG_CLEARED;
         TIMER_3_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;
-        TIMER_1_5_CHAR_FLAG = MODBUS_FLAG_CLEARED; // last: it must not survive without the 3.5 char flag that follows it
+        TIMER_1_5_CHAR_FLAG = MODBUS_FLAG_CLEARED; // after the others: it must not survive without the 3.5 char flag that follows it
+        slave_msg_ptr->req.len = 0;                // last: no bytes must be left in the buffer without the flag that announces them
     }
 }
 
-- 
2.43.0


From ee1b2aa26ee6d097db7f70600513c2180f956d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:17 +0000
Subject: [PATCH 14/21] fix: slave discards the rest of a frame whose beginning
 was dropped

When the 1.5 character event of a damaged frame was cleared with the end of the
previous exchange, the rest of the frame stayed in the request buffer with no
flag to announce it, and the next clean request was appended to it and lost.
The flags are volatile because the order of the reads matters.
---
 src/modbus_slave.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/modbus_slave.c b/src/modbus_slave.c
index 098be5f..351e425 100644
--- a/src/modbus_slave.c
+++ b/src/modbus_slave.c
@@ -37,10 +37,10 @@ PRIVATE modbus_slave_state_t slave_manager_state_machine = MODBUS_SLAVE_UNKNOWN;
 PRIVATE const modbus_RTU_driver_struct_t *slave_RTU_driver = NULL;
 PRIVATE modbus_msg_t slave_msg;
 PRIVATE modbus_msg_t *slave_msg_ptr = NULL;
-PRIVATE modbus_status_flag_t TIMER_1_5_CHAR_FLAG = MODBUS_FLAG_UNKNOWN;
-PRIVATE modbus_status_flag_t TIMER_3_5_CHAR_FLAG = MODBUS_FLAG_UNKNOWN;
-PRIVATE modbus_status_flag_t FRAME_ERROR_FLAG = MODBUS_FLAG_UNKNOWN;
-PRIVATE modbus_status_flag_t RESP_TRANSMITION_FLAG = MODBUS_FLAG_UNKNOWN;
+PRIVATE volatile modbus_status_flag_t TIMER_1_5_CHAR_FLAG = MODBUS_FLAG_UNKNOWN;
+PRIVATE volatile modbus_status_flag_t TIMER_3_5_CHAR_FLAG = MODBUS_FLAG_UNKNOWN;
+PRIVATE volatile modbus_status_flag_t FRAME_ERROR_FLAG = MODBUS_FLAG_UNKNOWN;
+PRIVATE volatile modbus_status_flag_t RESP_TRANSMITION_FLAG = MODBUS_FLAG_UNKNOWN;
 
 static void handle_modbus_slave_idle_state(void);
 static bool modbus_req_len_fits_fun_code(const modbus_req_resp_t *req);
@@ -161,9 +161,11 @@ void check_modbus_request(void)
  *
  * This function handles the Modbus slave state machine when it is in the idle state.
  * It checks for the expiration of the 1.5 character time and initiates reception of Modbus messages.
+ * If only the 3.5 character time has expired, whatever has been received is discarded.
  */
 static void handle_modbus_slave_idle_state(void)
 {
+    modbus_status_flag_t t_3_5_char_flag = TIMER_3_5_CHAR_FLAG; // taken first: 1.5 char flag is set before it
     if (TIMER_1_5_CHAR_FLAG == MODBUS_FLAG_SET)
     {
         modbus_ret_t RTU_status;
@@ -175,6 +177,12 @@ static void handle_modbus_slave_idle_state(void)
         }
         slave_manager_state_machine = MODBUS_SLAVE_MSG_RECIVED;
     }
+    else if (MODBUS_FLAG_SET == t_3_5_char_flag)
+    {
+        // end of a frame whose beginning was dropped together with its 1.5 char flag: the rest must not stay in the buffer
+        FRAME_ERROR_FLAG = MODBUS_FLAG_SET;
+        slave_manager_state_machine = MODBUS_SLAVE_MSG_RECIVED;
+    }
 }
 
 /**
-- 
2.43.0


From b328dadbbebe9a6b0d37bd2ae91efceae320e101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:52 +0000
Subject: [PATCH 15/21] fix: check the length of the frame the CRC was checked
 for

Bytes that arrive while the main loop is interrupted between the CRC check and
the length check must not make a frame fit that did not fit.
---
 src/modbus_master.c | 17 ++++++++++-------
 src/modbus_slave.c  | 25 ++++++++++++++-----------
 2 files changed, 24 insertions(+), 18 deletions(-)

diff --git a/src/modbus_master.c b/src/modbus_master.c
index a765531..44513f1 100644
--- a/src/modbus_master.c
+++ b/src/modbus_master.c
@@ -84,7 +84,7 @@ static void modbus_master_transmitting_state_handling(void);
 static void modbus_master_resp_waiting_state_handling(void);
 static void modbus_master_resp_timeout_handle(void);
 static void modbus_master_RTU_recv_state_handle(void);
-static bool modbus_master_resp_fits_req(const modbus_msg_t *msg);
+static bool modbus_master_resp_fits_req(const modbus_msg_t *msg, modbus_buf_size_t resp_len);
 static void modbus_master_resp_recived_state_handling(void);
 
 static void modbus_master_msg_recived_correctly_state_handle(void);
@@ -757,15 +757,17 @@ static void modbus_master_RTU_recv_state_handle(void)
 {
     modbus_ret_t RTU_status;
     modbus_device_ID_t modbus_req_slave_ID = msg_buf->req.data[MODBUS_SLAVE_ADR_IDX];
+    modbus_buf_size_t resp_len;
     MODBUS_MASTER_TIMER_1_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;
-    RTU_status = modbus_RTU_recv(msg_buf->resp.data, msg_buf->resp.len, modbus_req_slave_ID);
+    resp_len = msg_buf->resp.len; // taken once: more bytes may arrive at any time
+    RTU_status = modbus_RTU_recv(msg_buf->resp.data, resp_len, modbus_req_slave_ID);
     if (RET_ERROR_CRC == RTU_status)
     {
         modbus_master_disable_resp_timeout_timer();
         MODBUS_MASTER_RTU_CRC_ERROR_FLAG = MODBUS_FLAG_SET;
         modbus_master_manager_state_machine = MODBUS_MASTER_RESP_RECIVED;
     }
-    else if ((RET_ERROR_SLAVE_ID == RTU_status) || (!modbus_master_resp_fits_req(msg_buf)))
+    else if ((RET_ERROR_SLAVE_ID == RTU_status) || (!modbus_master_resp_fits_req(msg_buf, resp_len)))
     {
         msg_buf->resp.len = 0;
     }
@@ -784,9 +786,10 @@ static void modbus_master_RTU_recv_state_handle(void)
  * must not be processed as if it was a response, because it would be read as data it does not contain.
  *
  * @param msg Pointer to the message with the request and the received frame (both including CRC).
+ * @param resp_len Number of received bytes.
  * @return true if the received frame is a response to the request, false otherwise.
  */
-static bool modbus_master_resp_fits_req(const modbus_msg_t *msg)
+static bool modbus_master_resp_fits_req(const modbus_msg_t *msg, modbus_buf_size_t resp_len)
 {
     const modbus_buf_t *req = msg->req.data;
     const modbus_buf_t *resp = msg->resp.data;
@@ -795,7 +798,7 @@ static bool modbus_master_resp_fits_req(const modbus_msg_t *msg)
 
     if ((req[MODBUS_FUNCTION_CODE_IDX] | MODBUS_EXCEPTION_CODE_MASK) == resp[MODBUS_FUNCTION_CODE_IDX])
     {
-        return (MODBUS_EXCEPTION_CODE_RESP_LEN + MODBUS_RTU_CRC_LEN) == msg->resp.len;
+        return (MODBUS_EXCEPTION_CODE_RESP_LEN + MODBUS_RTU_CRC_LEN) == resp_len;
     }
     if (req[MODBUS_FUNCTION_CODE_IDX] != resp[MODBUS_FUNCTION_CODE_IDX])
     {
@@ -812,12 +815,12 @@ static bool modbus_master_resp_fits_req(const modbus_msg_t *msg)
         byte_count = data_qty * 2;
         break;
     default: // response to a write request echoes the address and the value or quantity
-        return ((MODBUS_WRITE_SINGLE_RESP_LEN + MODBUS_RTU_CRC_LEN) == msg->resp.len) &&
+        return ((MODBUS_WRITE_SINGLE_RESP_LEN + MODBUS_RTU_CRC_LEN) == resp_len) &&
                (read_u16_from_buf(&req[MODBUS_REQUEST_ADR_IDX]) == read_u16_from_buf(&resp[MODBUS_RESP_WRITE_ADR_IDX])) &&
                (data_qty == read_u16_from_buf(&resp[MODBUS_RESP_WRITE_MULTIPLE_DATA_QTY_IDX]));
     }
     return (byte_count == resp[MODBUS_RESP_READ_BYTE_CNT_IDX]) &&
-           ((MODBUS_READ_RESP_LEN + byte_count + MODBUS_RTU_CRC_LEN) == msg->resp.len);
+           ((MODBUS_READ_RESP_LEN + byte_count + MODBUS_RTU_CRC_LEN) == resp_len);
 }
 
 /**
diff --git a/src/modbus_slave.c b/src/modbus_slave.c
index 351e425..b2d83d8 100644
--- a/src/modbus_slave.c
+++ b/src/modbus_slave.c
@@ -43,7 +43,7 @@ PRIVATE volatile modbus_status_flag_t FRAME_ERROR_FLAG = MODBUS_FLAG_UNKNOWN;
 PRIVATE volatile modbus_status_flag_t RESP_TRANSMITION_FLAG = MODBUS_FLAG_UNKNOWN;
 
 static void handle_modbus_slave_idle_state(void);
-static bool modbus_req_len_fits_fun_code(const modbus_req_resp_t *req);
+static bool modbus_req_len_fits_fun_code(const modbus_buf_t *req_data, modbus_buf_size_t req_len);
 static void handle_modbus_slave_msg_recived_state(void);
 static void handle_modbus_slave_transmitting_resp_state(void);
 static void handle_modbus_slave_default_state(void);
@@ -169,9 +169,11 @@ static void handle_modbus_slave_idle_state(void)
     if (TIMER_1_5_CHAR_FLAG == MODBUS_FLAG_SET)
     {
         modbus_ret_t RTU_status;
+        modbus_buf_size_t req_len;
         TIMER_1_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;
-        RTU_status = modbus_RTU_recv(slave_msg_ptr->req.data, slave_msg_ptr->req.len, modbus_slave_ID);
-        if ((RTU_status != RET_OK) || (!modbus_req_len_fits_fun_code(&slave_msg_ptr->req)))
+        req_len = slave_msg_ptr->req.len; // taken once: more bytes may arrive at any time
+        RTU_status = modbus_RTU_recv(slave_msg_ptr->req.data, req_len, modbus_slave_ID);
+        if ((RTU_status != RET_OK) || (!modbus_req_len_fits_fun_code(slave_msg_ptr->req.data, req_len)))
         {
             FRAME_ERROR_FLAG = MODBUS_FLAG_SET;
         }
@@ -191,29 +193,30 @@ static void handle_modbus_slave_idle_state(void)
  * A frame with correct CRC that is shorter than its function code requires must not be processed,
  * because the missing fields would be taken from whatever an earlier frame left in the buffer.
  *
- * @param req Pointer to the received request, including slave address and CRC.
+ * @param req_data Pointer to the received request, including slave address and CRC.
+ * @param req_len Number of received bytes.
  * @return true if the request can be processed, false if it has to be ignored.
  */
-static bool modbus_req_len_fits_fun_code(const modbus_req_resp_t *req)
+static bool modbus_req_len_fits_fun_code(const modbus_buf_t *req_data, modbus_buf_size_t req_len)
 {
-    if (MODBUS_RTU_MIN_LEN > req->len)
+    if (MODBUS_RTU_MIN_LEN > req_len)
     {
         return false;
     }
-    switch (req->data[MODBUS_FUNCTION_CODE_IDX])
+    switch (req_data[MODBUS_FUNCTION_CODE_IDX])
     {
     case MODBUS_READ_COILS_FUNC_CODE:
     case MODBUS_READ_DISCRETE_INPUTS_FUNC_CODE:
     case MODBUS_READ_HOLDING_REGISTERS_FUNC_CODE:
     case MODBUS_READ_INPUT_REGISTERS_FUNC_CODE:
-        return (MODBUS_READ_REQUEST_LEN + MODBUS_RTU_CRC_LEN) == req->len;
+        return (MODBUS_READ_REQUEST_LEN + MODBUS_RTU_CRC_LEN) == req_len;
     case MODBUS_WRITE_SINGLE_COIL_FUNC_CODE:
     case MODBUS_WRITE_SINGLE_REGISTER_FUNC_CODE:
-        return (MODBUS_WRITE_SINGLE_REQUEST_LEN + MODBUS_RTU_CRC_LEN) == req->len;
+        return (MODBUS_WRITE_SINGLE_REQUEST_LEN + MODBUS_RTU_CRC_LEN) == req_len;
     case MODBUS_WRITE_MULTIPLE_COILS_FUNC_CODE:
     case MODBUS_WRITE_MULTIPLE_REGISTER_FUNC_CODE:
-        return ((MODBUS_WRITE_MULTI_REQUEST_LEN + MODBUS_RTU_CRC_LEN) <= req->len) &&
-               ((MODBUS_WRITE_MULTI_REQUEST_LEN + req->data[MODBUS_REQUEST_BYTE_CNT_IDX] + MODBUS_RTU_CRC_LEN) == req->len);
+        return ((MODBUS_WRITE_MULTI_REQUEST_LEN + MODBUS_RTU_CRC_LEN) <= req_len) &&
+               ((MODBUS_WRITE_MULTI_REQUEST_LEN + req_data[MODBUS_REQUEST_BYTE_CNT_IDX] + MODBUS_RTU_CRC_LEN) == req_len);
     default:
         return true; // unsupported function code, to be answered with an exception
     }
-- 
2.43.0


From a4d3cd7d6bcf51cb93fb312c03995c32a68bf8cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:46 +0000
Subject: [PATCH 16/21] fix: the slave's frame error flag must not survive the
 frame it belongs to

When a whole damaged frame was heard while the main loop was interrupted
between clearing the frame error flag and clearing the timer flags, the
frame error flag was left behind without the timer flags and made the slave
discard the next intact request.
---
 src/modbus_slave.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/modbus_slave.c b/src/modbus_slave.c
index b2d83d8..27225bc 100644
--- a/src/modbus_slave.c
+++ b/src/modbus_slave.c
@@ -234,9 +234,9 @@ static void handle_modbus_slave_msg_recived_state(void)
     if ((MODBUS_FLAG_SET == FRAME_ERROR_FLAG) && (MODBUS_FLAG_SET == TIMER_3_5_CHAR_FLAG))
     {
         slave_manager_state_machine = MODBUS_SLAVE_IDLE;
-        FRAME_ERROR_FLAG = MODBUS_FLAG_CLEARED;
         TIMER_3_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;
-        TIMER_1_5_CHAR_FLAG = MODBUS_FLAG_CLEARED; // after the others: it must not survive without the 3.5 char flag that follows it
+        TIMER_1_5_CHAR_FLAG = MODBUS_FLAG_CLEARED; // after the 3.5 char flag: it must not survive without the one that follows it
+        FRAME_ERROR_FLAG = MODBUS_FLAG_CLEARED;    // after the timer flags: it must not survive the frame it belongs to
         slave_msg_ptr->req.len = 0;                // last: no bytes must be left in the buffer without the flag that announces them
     }
     else if ((MODBUS_FLAG_CLEARED == FRAME_ERROR_FLAG) && (MODBUS_FLAG_SET == TIMER_3_5_CHAR_FLAG))
@@ -266,9 +266,9 @@ static void handle_modbus_slave_transmitting_resp_state(void)
     {
         slave_manager_state_machine = MODBUS_SLAVE_IDLE;
         slave_msg_ptr->resp.len = 0;
-        FRAME_ERROR_FLAG = MODBUS_FLAG_CLEARED;
         TIMER_3_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;
-        TIMER_1_5_CHAR_FLAG = MODBUS_FLAG_CLEARED; // after the others: it must not survive without the 3.5 char flag that follows it
+        TIMER_1_5_CHAR_FLAG = MODBUS_FLAG_CLEARED; // after the 3.5 char flag: it must not survive without the one that follows it
+        FRAME_ERROR_FLAG = MODBUS_FLAG_CLEARED;    // after the timer flags: it must not survive the frame it belongs to
         slave_msg_ptr->req.len = 0;                // last: no bytes must be left in the buffer without the flag that announces them
     }
 }
-- 
2.43.0


From 2c2563d91c70a30d625d88475c4e1909158b8b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:10 +0000
Subject: [PATCH 17/21] fix: look for frame errors only after the 3.5 character
 silence was seen

Master and slave read the frame error flag before the 3.5 character flag. When
both were raised in between by interrupts, a frame with a gap inside was
processed as if it was intact.
---
 src/modbus_master.c | 13 +++++++------
 src/modbus_slave.c  |  3 ++-
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/modbus_master.c b/src/modbus_master.c
index 44513f1..d47a73d 100644
--- a/src/modbus_master.c
+++ b/src/modbus_master.c
@@ -59,11 +59,11 @@ PRIVATE modbus_msg_t *msg_buf = NULL;
 PRIVATE modbus_timer_t modbus_master_resp_timeout_timer = 0;
 PRIVATE uint8_t modbus_master_msg_repeat_couter = 0;
 
-PRIVATE modbus_status_flag_t MODBUS_MASTER_TIMER_1_5_CHAR_FLAG = MODBUS_FLAG_UNKNOWN;
-PRIVATE modbus_status_flag_t MODBUS_MASTER_TIMER_3_5_CHAR_FLAG = MODBUS_FLAG_UNKNOWN;
-PRIVATE modbus_status_flag_t MODBUS_MASTER_FRAME_ERROR_FLAG = MODBUS_FLAG_UNKNOWN;
-PRIVATE modbus_status_flag_t MODBUS_MASTER_REQ_TRANSMITION_FLAG = MODBUS_FLAG_UNKNOWN;
-PRIVATE modbus_status_flag_t MODBUS_MASTER_RTU_CRC_ERROR_FLAG = MODBUS_FLAG_UNKNOWN;
+PRIVATE volatile modbus_status_flag_t MODBUS_MASTER_TIMER_1_5_CHAR_FLAG = MODBUS_FLAG_UNKNOWN;
+PRIVATE volatile modbus_status_flag_t MODBUS_MASTER_TIMER_3_5_CHAR_FLAG = MODBUS_FLAG_UNKNOWN;
+PRIVATE volatile modbus_status_flag_t MODBUS_MASTER_FRAME_ERROR_FLAG = MODBUS_FLAG_UNKNOWN;
+PRIVATE volatile modbus_status_flag_t MODBUS_MASTER_REQ_TRANSMITION_FLAG = MODBUS_FLAG_UNKNOWN;
+PRIVATE volatile modbus_status_flag_t MODBUS_MASTER_RTU_CRC_ERROR_FLAG = MODBUS_FLAG_UNKNOWN;
 
 static void modbus_master_send_req_from_msg_buf(void);
 static void register_msg_req_resp_data_buffers(modbus_mode_t mode);
@@ -848,7 +848,8 @@ static void modbus_master_resp_recived_state_handling(void)
     {
         modbus_master_RTU_CRC_error_state_handling();
     }
-    else if ((MODBUS_FLAG_CLEARED == MODBUS_MASTER_FRAME_ERROR_FLAG) && (MODBUS_FLAG_CLEARED == MODBUS_MASTER_RTU_CRC_ERROR_FLAG) && (MODBUS_FLAG_SET == MODBUS_MASTER_TIMER_3_5_CHAR_FLAG))
+    // 3.5 char flag is looked at first: a frame error may still be detected until it is set
+    else if ((MODBUS_FLAG_SET == MODBUS_MASTER_TIMER_3_5_CHAR_FLAG) && (MODBUS_FLAG_CLEARED == MODBUS_MASTER_FRAME_ERROR_FLAG) && (MODBUS_FLAG_CLEARED == MODBUS_MASTER_RTU_CRC_ERROR_FLAG))
     {
         modbus_master_msg_recived_correctly_state_handle();
     }
diff --git a/src/modbus_slave.c b/src/modbus_slave.c
index 27225bc..011b993 100644
--- a/src/modbus_slave.c
+++ b/src/modbus_slave.c
@@ -239,7 +239,8 @@ static void handle_modbus_slave_msg_recived_state(void)
         FRAME_ERROR_FLAG = MODBUS_FLAG_CLEARED;    // after the timer flags: it must not survive the frame it belongs to
         slave_msg_ptr->req.len = 0;                // last: no bytes must be left in the buffer without the flag that announces them
     }
-    else if ((MODBUS_FLAG_CLEARED == FRAME_ERROR_FLAG) && (MODBUS_FLAG_SET == TIMER_3_5_CHAR_FLAG))
+    // 3.5 char flag is looked at first: a frame error may still be detected until it is set
+    else if ((MODBUS_FLAG_SET == TIMER_3_5_CHAR_FLAG) && (MODBUS_FLAG_CLEARED == FRAME_ERROR_FLAG))
     {
         parse_master_request_and_prepare_resp(slave_msg_ptr);
         modbus_RTU_send(slave_msg_ptr->resp.data, &slave_msg_ptr->resp.len, modbus_slave_ID);
-- 
2.43.0


From 3ecf1a3c6f94d795211a2e95f98417dd4ac30f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:59 +0000
Subject: [PATCH 18/21] fix: the slave's poll must not use a driver or buffer
 that no initialization has provided

check_modbus_request dereferenced a NULL message pointer when called before modbus_slave_init, and a
NULL driver when a request arrived after modbus_slave_init in a mode that is not supported.
---
 src/modbus_slave.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/modbus_slave.c b/src/modbus_slave.c
index 011b993..105c5d5 100644
--- a/src/modbus_slave.c
+++ b/src/modbus_slave.c
@@ -135,10 +135,17 @@ void modbus_slave_init(modbus_mode_t mode, baud_t baud_rate, parity_t parity, mo
  * It transitions between different states (idle, message received, transmitting response) based on
  * the state of flags indicating timer expirations and frame errors during Modbus communication.
  *
+ * @note Without a driver (before the initialization, or after an initialization in a mode that is not supported)
+ *       there is nothing to receive from and nothing to respond through: the function does nothing.
+ *
  * @warning This function needs to be called periodically to keep the Modbus slave application running and operational.
  */
 void check_modbus_request(void)
 {
+    if (NULL == slave_RTU_driver)
+    {
+        return;
+    }
     switch (slave_manager_state_machine)
     {
     case MODBUS_SLAVE_IDLE:
-- 
2.43.0


From 83050b9ad5b8965723fcdbe995499c7d7163ba5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:40 +0000
Subject: [PATCH 19/21] fix: leave no received bytes without their flags when a
 request is sent

A frame of another slave that was received completely between emptying the
response buffer and clearing the flags, while the main code was held up by
interrupts in between, stayed in the buffer with its flags cleared. The reply
was appended to it, taken for a foreign frame and lost: the request ended in
a timeout although the correct reply had arrived.
---
 src/modbus_master.c | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/modbus_master.c b/src/modbus_master.c
index d47a73d..32a6c02 100644
--- a/src/modbus_master.c
+++ b/src/modbus_master.c
@@ -403,16 +403,21 @@ void update_modbus_master_timout_timer(void)
  */
 static void modbus_master_send_req_from_msg_buf(void)
 {
+    volatile modbus_buf_size_t *resp_len = &msg_buf->resp.len;
     MODBUS_MASTER_REQ_TRANSMITION_FLAG = MODBUS_FLAG_SET;
     modbus_master_manager_state_machine = MODBUS_MASTER_TRANSMITTING_REQ;
     RTU_driver->send(msg_buf->req.data, msg_buf->req.len);
-    // nothing received before this request was sent belongs to its response
-    msg_buf->resp.len = 0;
-    MODBUS_MASTER_TIMER_3_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;
-    MODBUS_MASTER_FRAME_ERROR_FLAG = MODBUS_FLAG_CLEARED;
-    MODBUS_MASTER_RTU_CRC_ERROR_FLAG = MODBUS_FLAG_CLEARED;
-    // cleared last: 1.5 char flag without the 3.5 char flag that follows it would be waited for forever
-    MODBUS_MASTER_TIMER_1_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;
+    do
+    {
+        // nothing received before this request was sent belongs to its response
+        *resp_len = 0;
+        MODBUS_MASTER_TIMER_3_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;
+        MODBUS_MASTER_FRAME_ERROR_FLAG = MODBUS_FLAG_CLEARED;
+        MODBUS_MASTER_RTU_CRC_ERROR_FLAG = MODBUS_FLAG_CLEARED;
+        // cleared last: 1.5 char flag without the 3.5 char flag that follows it would be waited for forever
+        MODBUS_MASTER_TIMER_1_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;
+        // bytes that came in the meantime must not stay in the buffer without the flags that belong to them
+    } while (0 != *resp_len);
     RTU_driver->enable_rcev(&msg_buf->resp);
 }
 
-- 
2.43.0


From 7237ba0ebc0a05f6c5f5652ecc8611eb192177b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:21:54 +0000
Subject: [PATCH 20/21] fix: don't return a message buffer twice when the
 master is initialized from an outcome callback

A callback that reports the outcome of a request may initialize the master
again. The buffer of the finished request was then pushed to the new free
queue once more, so two later requests shared it. It is not returned a
second time now.
---
 src/modbus_master.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/modbus_master.c b/src/modbus_master.c
index 32a6c02..5f6dc9c 100644
--- a/src/modbus_master.c
+++ b/src/modbus_master.c
@@ -316,6 +316,7 @@ void modbus_master_init(modbus_mode_t mode, baud_t baud_rate, parity_t parity)
     modbus_queue_init(free_q);
     modbus_queue_init(tx_rx_q);
     push_all_available_msg_buffer_to_free_queue();
+    msg_buf = NULL; // it is in the free queue again, also if this is called from inside a callback
 
     RTU_driver = get_master_RTU_driver_interface();
     RTU_driver->init(baud_rate, parity);
@@ -967,6 +968,9 @@ static void modbus_master_frame_error_state_handling(void)
 static void modbus_master_msg_process_end(void)
 {
     modbus_master_msg_repeat_couter = 0;
-    modbus_queue_push(free_q, &msg_buf);
+    if (NULL != msg_buf) // otherwise the master was initialized again by the application's callback
+    {
+        modbus_queue_push(free_q, &msg_buf);
+    }
     modbus_master_manager_state_machine = MODBUS_MASTER_IDLE;
 }
-- 
2.43.0


From 2ed431982329500a95e5b893d22d231587b821b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:21:55 +0000
Subject: [PATCH 21/21] fix: deliver a received reply from a copy of its
 description

A read callback may initialize the master again in an unsupported mode,
which takes the reply buffer away while the remaining values are still being
delivered: they were then read through a NULL pointer.
---
 src/master_internall/modbus_master_PDU.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/master_internall/modbus_master_PDU.c b/src/master_internall/modbus_master_PDU.c
index dfab5bb..47a975a 100644
--- a/src/master_internall/modbus_master_PDU.c
+++ b/src/master_internall/modbus_master_PDU.c
@@ -553,6 +553,8 @@ static modbus_ret_t update_master_data_from_modbus_msg(const modbus_req_resp_t *
     modbus_fun_code_t resp_fun_code = resp->data[MODBUS_FUNCTION_CODE_IDX];
     modbus_adr_t data_adr = read_u16_from_buf(req->data + MODBUS_REQUEST_ADR_IDX);
     modbus_data_qty_t data_qty = read_u16_from_buf(req->data + MODBUS_REQUEST_QTY_IDX);
+    const modbus_req_resp_t received = *resp; // the application's callbacks may initialize the master again, also without buffers
+    resp = &received;
     switch (resp_fun_code)
     {
     case MODBUS_READ_COILS_FUNC_CODE:
-- 
2.43.0

