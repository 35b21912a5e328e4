From 784cd55da79ecc8dc21444ca0e2545667239390f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:33:51 +0000
Subject: [PATCH 01/28] fix: resume a write interrupted by a signal instead of
 dropping the client

---
 src/tcp_utils.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tcp_utils.c b/src/tcp_utils.c
index 6fee683..063a910 100644
--- a/src/tcp_utils.c
+++ b/src/tcp_utils.c
@@ -9,6 +9,9 @@ int tcp_utils_write_data(uint8_t *buffer, size_t total_len_bytes, int client_soc
     while (left > 0) {
         ssize_t written = write(client_socket, buffer + (total_len_bytes - left), left);
         if (written < 0) {
+            if (errno == EINTR) {
+                continue;
+            }
             return -1;
         }
         left -= written;
-- 
2.43.0


From 5ef5ebd2c2226255a64a08cb0e540039c424246d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:33:51 +0000
Subject: [PATCH 02/28] fix: release the message buffer when a request was not
 fully received

---
 src/api_utils.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/api_utils.c b/src/api_utils.c
index 92b8d92..2345f9d 100644
--- a/src/api_utils.c
+++ b/src/api_utils.c
@@ -47,6 +47,7 @@ int api_utils_read_tx_request(int socket, const struct message_header *header, s
     }
     int code = tcp_utils_read_data(buffer, header->message_length, socket);
     if (code != 0) {
+        free(buffer);
         return -1;
     }
     TxRequest *result = tx_request__unpack(NULL, header->message_length, buffer);
@@ -68,6 +69,7 @@ int api_utils_read_rx_request(int socket, const struct message_header *header, s
     }
     int code = tcp_utils_read_data(buffer, header->message_length, socket);
     if (code != 0) {
+        free(buffer);
         return -1;
     }
     RxRequest *result = rx_request__unpack(NULL, header->message_length, buffer);
-- 
2.43.0


From c043b12afff48b8b8b965a07d8ac67b6bb3847df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:33:51 +0000
Subject: [PATCH 03/28] fix: always terminate TLE lines supplied by a client

---
 src/api_utils.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/api_utils.c b/src/api_utils.c
index 2345f9d..de75b01 100644
--- a/src/api_utils.c
+++ b/src/api_utils.c
@@ -111,6 +111,7 @@ int api_utils_write_response(int socket, ResponseStatus status, uint32_t details
 
 void api_utils_convert_tle(char **tle, char (*output)[80]) {
     for (int i = 0; i < 3; i++) {
-        strncpy(output[i], tle[i], 80);
+        strncpy(output[i], tle[i], 79);
+        output[i][79] = '\0';
     }
 }
\ No newline at end of file
-- 
2.43.0


From d09237e8e9dd9bf5da894ed97e99bb34b7882858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:35:05 +0000
Subject: [PATCH 04/28] fix: keep symbol timing and buffer bounds of clock
 recovery across input chunks

---
 src/dsp/clock_recovery_mm.c | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/src/dsp/clock_recovery_mm.c b/src/dsp/clock_recovery_mm.c
index 9f90f03..64a4f0b 100644
--- a/src/dsp/clock_recovery_mm.c
+++ b/src/dsp/clock_recovery_mm.c
@@ -20,6 +20,8 @@ struct clock_mm_t {
     float *working_buffer;
     size_t history_offset;
     size_t working_len_total;
+    // samples of the next input that were already skipped by the last symbol
+    size_t skip;
 
     float *output;
     size_t output_len;
@@ -75,6 +77,18 @@ static inline float branchless_clip(float x, float clip) {
     return 0.5F * (fabsf(x + clip) - fabsf(x - clip));
 }
 
+// every symbol should move the input index forward,
+// otherwise input won't fit into the working buffer
+static inline size_t clock_mm_step(float samples) {
+    if (!(samples >= 2.0F)) {
+        return 1;
+    }
+    if (samples > 1000000.0F) {
+        return 1000000;
+    }
+    return (size_t) samples;
+}
+
 void clock_mm_process(const float *input, size_t input_len, float **output, size_t *output_len, clock_mm *clock) {
     // even if mu == 1 input buffer should not be more than output buffer
     if (input_len > clock->output_len) {
@@ -86,9 +100,8 @@ void clock_mm_process(const float *input, size_t input_len, float **output, size
     // prepend history to the input
     memcpy(clock->working_buffer + clock->history_offset, input, input_len * sizeof(float));
     int taps_len = mmse_fir_interpolator_taps(clock->interp);
-    int ii = 0;                                  // input index
-    int oo = 0;                                  // output index
-    int previous = 0;
+    size_t ii = clock->skip;                     // input index
+    size_t oo = 0;                               // output index
     size_t working_len = clock->history_offset + input_len;
     // not enough input
     if (working_len < taps_len) {
@@ -106,30 +119,33 @@ void clock_mm_process(const float *input, size_t input_len, float **output, size
                                                           clock->interp);
         if (isnan(clock->output[oo])) {
             clock->output[oo] = 0.0f;
-            previous = ii;
-            ii += (int) floorf(clock->omega);
+            ii += clock_mm_step(clock->omega);
             oo++;
             continue;
         }
 
         mm_val = slice(clock->last_sample) * clock->output[oo] - slice(clock->output[oo]) * clock->last_sample;
         clock->last_sample = clock->output[oo];
-        previous = ii;
 
         clock->omega = clock->omega + clock->gain_omega * mm_val;
         clock->omega = clock->omega_mid + branchless_clip(clock->omega - clock->omega_mid, clock->omega_lim);
         clock->mu = clock->mu + clock->omega + clock->gain_mu * mm_val;
-        ii += (int) floorf(clock->mu);
+        ii += clock_mm_step(clock->mu);
         clock->mu = clock->mu - floorf(clock->mu);
+        if (isnan(clock->mu)) {
+            clock->mu = 0.0F;
+        }
         oo++;
     }
 
     size_t last_index;
     if (ii > working_len) {
-        last_index = previous;
+        // next symbol is somewhere in the next input
+        last_index = working_len;
     } else {
         last_index = ii;
     }
+    clock->skip = ii - last_index;
     clock->history_offset = working_len - last_index;
 
     memmove(clock->working_buffer, clock->working_buffer + last_index, sizeof(float) * clock->history_offset);
-- 
2.43.0


From 25ad887f5448baca4e17e11f0c4dd9964e014ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:35:39 +0000
Subject: [PATCH 05/28] fix: keep decimation phase of the FIR filter when input
 is shorter than decimation

---
 src/dsp/fir_filter.c | 22 ++++++++++++++++------
 src/dsp/fir_filter.h |  2 ++
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/dsp/fir_filter.c b/src/dsp/fir_filter.c
index d7469f6..34eb25d 100644
--- a/src/dsp/fir_filter.c
+++ b/src/dsp/fir_filter.c
@@ -94,16 +94,21 @@ void fir_filter_process_float(const float *input, size_t input_len, float *worki
                               fir_filter *filter) {
     memcpy(working_buffer + filter->history_offset, input, input_len * filter->num_bytes);
     size_t working_len = filter->history_offset + input_len;
-    size_t i = 0;
+    size_t i = filter->skip;
     size_t produced = 0;
     float *output_pointer = (float *) filter->output;
-    size_t max_index = working_len - (filter->taps_len - 1);
-    for (; i < max_index; i += filter->decimation, produced++) {
+    for (; i + filter->taps_len <= working_len; i += filter->decimation, produced++) {
         volk_32f_x2_dot_prod_32f_u(filter->volk_output, working_buffer + i, filter->taps[0],
                                    filter->taps_len);
         *output_pointer = *(float *) filter ->volk_output;
         output_pointer++;
     }
+    if (i > working_len) {
+        filter->skip = i - working_len;
+        i = working_len;
+    } else {
+        filter->skip = 0;
+    }
     filter->history_offset = working_len - i;
     if (i > 0) {
         memmove(working_buffer, working_buffer + i, filter->num_bytes * filter->history_offset);
@@ -124,16 +129,21 @@ void fir_filter_process_complex(const float complex *input, size_t input_len, fl
                                 size_t *output_len, fir_filter *filter) {
     memcpy(working_buffer + filter->history_offset, input, input_len * filter->num_bytes);
     size_t working_len = filter->history_offset + input_len;
-    size_t i = 0;
+    size_t i = filter->skip;
     size_t produced = 0;
     float complex *output_pointer = (float complex *) filter->output;
-    size_t max_index = working_len - (filter->taps_len - 1);
-    for (; i < max_index; i += filter->decimation, produced++) {
+    for (; i + filter->taps_len <= working_len; i += filter->decimation, produced++) {
         volk_32fc_32f_dot_prod_32fc_u(filter->volk_output, working_buffer + i, filter->taps[0],
                                       filter->taps_len);
         *output_pointer = *(float complex *) filter->volk_output;
         output_pointer++;
     }
+    if (i > working_len) {
+        filter->skip = i - working_len;
+        i = working_len;
+    } else {
+        filter->skip = 0;
+    }
     filter->history_offset = working_len - i;
     if (i > 0) {
         memmove(working_buffer, working_buffer + i, filter->num_bytes * filter->history_offset);
diff --git a/src/dsp/fir_filter.h b/src/dsp/fir_filter.h
index 1ad8583..ce3f880 100644
--- a/src/dsp/fir_filter.h
+++ b/src/dsp/fir_filter.h
@@ -17,6 +17,8 @@ struct fir_filter_t {
 
     void *working_buffer;
     size_t history_offset;
+    // samples of the next input that were already skipped by decimation
+    size_t skip;
     size_t working_len_total;
     void *volk_output;
     size_t max_input_buffer_length;
-- 
2.43.0


From 1411db9504963a21a83d8b498d87ee2c0c47b18e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:35:39 +0000
Subject: [PATCH 06/28] fix: do not dereference a missing node when queue of
 size 1 is full

---
 src/queue.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/queue.c b/src/queue.c
index 0fc4146..2d1c573 100644
--- a/src/queue.c
+++ b/src/queue.c
@@ -122,6 +122,12 @@ int queue_put(const float complex *buffer, const size_t len, queue *queue) {
     }
     struct queue_node *to_fill;
     if (queue->first_free_node == NULL) {
+        // the only node is being processed, nothing to overwrite
+        if (queue->last_filled_node == NULL) {
+            pthread_mutex_unlock(&queue->mutex);
+            fprintf(stderr, "<3>queue is full\n");
+            return -1;
+        }
         // queue is full
         // overwrite last node
         to_fill = queue->last_filled_node;
-- 
2.43.0


From 8ca50f28f13b004ff0dbcb61b9b9c220a47c237f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:35:39 +0000
Subject: [PATCH 07/28] fix: report an error when transmitted samples were not
 written to the file

---
 src/sdr/file_source.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/sdr/file_source.c b/src/sdr/file_source.c
index 599628d..760c83b 100644
--- a/src/sdr/file_source.c
+++ b/src/sdr/file_source.c
@@ -143,11 +143,15 @@ int file_source_process_tx(float complex *input, size_t input_len, void *plugin)
         float complex *sig_output = NULL;
         size_t sig_output_len = 0;
         sig_source_multiply(device->freq_offset, input, input_len, &sig_output, &sig_output_len, device->signal);
-        //ignore actually written
-        fwrite(sig_output, sizeof(float complex), sig_output_len, device->tx_file);
+        if (fwrite(sig_output, sizeof(float complex), sig_output_len, device->tx_file) < sig_output_len) {
+            fprintf(stderr, "<3>[%d] unable to write tx file\n", device->id);
+            return -1;
+        }
     } else {
-        //ignore actually written
-        fwrite(input, sizeof(float complex), input_len, device->tx_file);
+        if (fwrite(input, sizeof(float complex), input_len, device->tx_file) < input_len) {
+            fprintf(stderr, "<3>[%d] unable to write tx file\n", device->id);
+            return -1;
+        }
     }
     return 0;
 }
-- 
2.43.0


From bee9e487df051c55d6af7d589fe69e05b70d2580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:35:39 +0000
Subject: [PATCH 08/28] fix: load libiio when plutosdr is used only for rx

---
 src/server_config.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/server_config.c b/src/server_config.c
index ef52b38..234b6a9 100644
--- a/src/server_config.c
+++ b/src/server_config.c
@@ -173,7 +173,7 @@ int server_config_create(struct server_config **config, const char *path) {
         fprintf(stdout, "tx sdr: %s\n", tx_sdr_type_str);
     }
     result->tx_sdr_type = tx_sdr_type;
-    if (result->tx_sdr_type == TX_SDR_TYPE_PLUTOSDR) {
+    if (result->tx_sdr_type == TX_SDR_TYPE_PLUTOSDR || result->rx_sdr_type == RX_SDR_TYPE_PLUTOSDR) {
         code = iio_lib_create(&result->iio);
         if (code != 0) {
             config_destroy(&libconfig);
-- 
2.43.0


From bba9e7d26c1fa7c1faf099f23764400d33e2dcd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:35:39 +0000
Subject: [PATCH 09/28] fix: do not lose a stop signal received while the
 server is starting or stopping

---
 src/main.c | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/main.c b/src/main.c
index 7f44c7a..2a84575 100644
--- a/src/main.c
+++ b/src/main.c
@@ -5,11 +5,14 @@
 #include "server_config.h"
 #include "tcp_server.h"
 
-static tcp_server *server = NULL;
+static tcp_server *volatile server = NULL;
+static volatile sig_atomic_t stop_requested = 0;
 
 void sdrmodem_stop_async(int signum) {
-	tcp_server_destroy(server);
+	stop_requested = 1;
+	tcp_server *running = server;
 	server = NULL;
+	tcp_server_destroy(running);
 }
 
 int main(int argc, char **argv) {
@@ -30,14 +33,21 @@ int main(int argc, char **argv) {
 	signal(SIGTERM, sdrmodem_stop_async);
     signal(SIGPIPE, SIG_IGN);
 
-	code = tcp_server_create(server_config, &server);
+	tcp_server *created = NULL;
+	code = tcp_server_create(server_config, &created);
 	if (code != 0) {
 		server_config_destroy(server_config);
 		exit(EXIT_FAILURE);
 	}
 
+	server = created;
+	// signal might be received while the server was starting
+	if (stop_requested) {
+		sdrmodem_stop_async(0);
+	}
+
 	// wait here until server terminates
-	tcp_server_join_thread(server);
+	tcp_server_join_thread(created);
 
 	// server will be freed on its own thread
 	server_config_destroy(server_config);
-- 
2.43.0


From 91f5b2816b49e0c9f158ff7b1a1c473dab519870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:36:31 +0000
Subject: [PATCH 10/28] fix: do not lose samples and sample alignment when sdr
 server is slow

---
 src/sdr/sdr_server_client.c | 18 ++++++++++++++----
 src/sdr_worker.c            |  2 +-
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/sdr/sdr_server_client.c b/src/sdr/sdr_server_client.c
index bff14d9..d0e23b9 100644
--- a/src/sdr/sdr_server_client.c
+++ b/src/sdr/sdr_server_client.c
@@ -17,6 +17,10 @@ struct sdr_server_client_t {
 
     float complex *output;
     size_t output_len;
+    // bytes of the incomplete sample received so far
+    size_t partial_len;
+    // complete samples returned to the caller. they precede incomplete sample in the output
+    size_t returned_len;
 };
 
 int sdr_server_client_create_inner(uint32_t id, char *addr, int port, int read_timeout_seconds, uint32_t max_output_buffer_length, sdr_server_client **client) {
@@ -149,14 +153,20 @@ int sdr_server_client_read_response(struct sdr_server_response **response, sdr_s
 
 int sdr_server_client_read_stream(float complex **output, size_t *output_len, void *plugin) {
     sdr_server_client *client = (sdr_server_client *) plugin;
+    char *buffer = (char *) client->output;
+    if (client->partial_len > 0 && client->returned_len > 0) {
+        memmove(buffer, buffer + client->returned_len * sizeof(float complex), client->partial_len);
+    }
     size_t actually_read = 0;
-    int code = tcp_utils_read_data_partially(client->output, sizeof(float complex) * client->output_len, &actually_read, client->client_socket);
-    if (actually_read != 0) {
+    int code = tcp_utils_read_data_partially(buffer + client->partial_len, sizeof(float complex) * client->output_len - client->partial_len, &actually_read, client->client_socket);
+    size_t total = client->partial_len + actually_read;
+    client->returned_len = total / sizeof(float complex);
+    client->partial_len = total % sizeof(float complex);
+    *output_len = client->returned_len;
+    if (client->returned_len != 0) {
         *output = client->output;
-        *output_len = actually_read / sizeof(float complex);
     } else {
         *output = NULL;
-        *output_len = 0;
     }
     return code;
 }
diff --git a/src/sdr_worker.c b/src/sdr_worker.c
index a05f742..62d7712 100644
--- a/src/sdr_worker.c
+++ b/src/sdr_worker.c
@@ -34,7 +34,7 @@ static void *sdr_worker_callback(void *arg) {
     struct array_t output;
     while (true) {
         int code = worker->rx_device->sdr_process_rx(&output.output, &output.output_len, worker->rx_device->plugin);
-        if (code < -1) {
+        if (code < -1 && output.output_len == 0) {
             // read timeout happened. it's ok.
             continue;
         }
-- 
2.43.0


From b1e5d48679ac0bcceb2322511e2917602ce6ab9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:36:31 +0000
Subject: [PATCH 11/28] fix: close sdr server connection only when nobody uses
 it

---
 src/sdr/sdr_server_client.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/sdr/sdr_server_client.c b/src/sdr/sdr_server_client.c
index d0e23b9..56bf355 100644
--- a/src/sdr/sdr_server_client.c
+++ b/src/sdr/sdr_server_client.c
@@ -31,6 +31,7 @@ int sdr_server_client_create_inner(uint32_t id, char *addr, int port, int read_t
     *result = (struct sdr_server_client_t) {0};
 
     result->id = id;
+    result->client_socket = -1;
     result->output_len = max_output_buffer_length;
     result->output = malloc(sizeof(float complex) * result->output_len);
     if (result->output == NULL) {
@@ -50,7 +51,6 @@ int sdr_server_client_create_inner(uint32_t id, char *addr, int port, int read_t
     tv.tv_sec = read_timeout_seconds;
     tv.tv_usec = 0;
     if (setsockopt(client_socket, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof tv)) {
-        close(client_socket);
         perror("setsockopt - SO_RCVTIMEO");
         sdr_server_client_destroy(result);
         return -1;
@@ -62,7 +62,6 @@ int sdr_server_client_create_inner(uint32_t id, char *addr, int port, int read_t
     address.sin_port = htons(port);
     int code = connect(client_socket, (struct sockaddr *) &address, sizeof(address));
     if (code != 0) {
-        close(client_socket);
         fprintf(stderr, "<3>[%d] connection with sdr server failed: %d\n", result->id, code);
         sdr_server_client_destroy(result);
         return -1;
@@ -218,7 +217,9 @@ void sdr_server_client_stop(void *plugin) {
         }
     }
     fprintf(stdout, "[%d] disconnected from sdr server..\n", client->id);
-    close(client->client_socket);
+    // unblock the thread that might be still reading the stream
+    // socket will be closed once this thread terminates
+    shutdown(client->client_socket, SHUT_RDWR);
 }
 
 void sdr_server_client_destroy(void *plugin) {
@@ -226,6 +227,9 @@ void sdr_server_client_destroy(void *plugin) {
         return;
     }
     sdr_server_client *client = (sdr_server_client *) plugin;
+    if (client->client_socket != -1) {
+        close(client->client_socket);
+    }
     if (client->output != NULL) {
         free(client->output);
     }
-- 
2.43.0


From 4ff656dc81f24b739af5714204400da229d04650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:37:00 +0000
Subject: [PATCH 12/28] fix: reject requests with unsupported number of samples
 per symbol, decimation or without fsk settings

---
 src/tcp_server.c | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/tcp_server.c b/src/tcp_server.c
index b6ecc7a..b40126b 100644
--- a/src/tcp_server.c
+++ b/src/tcp_server.c
@@ -117,6 +117,16 @@ int validate_tx_request(const struct TxRequest *req, uint32_t client_id, const s
             return -1;
         }
     }
+    if (req->mod_type == MODEM_TYPE__GMSK && req->fsk_settings == NULL) {
+        fprintf(stderr, "<3>[%d] missing fsk_settings parameter\n", client_id);
+        return -1;
+    }
+    // interpolation is 8bit
+    uint64_t samples_per_symbol = req->tx_sampling_freq / req->mod_baud_rate;
+    if (samples_per_symbol == 0 || samples_per_symbol > UINT8_MAX) {
+        fprintf(stderr, "<3>[%d] unsupported number of samples per symbol: %" PRIu64 "\n", client_id, samples_per_symbol);
+        return -1;
+    }
     return 0;
 }
 
@@ -145,6 +155,15 @@ int validate_rx_request(const struct RxRequest *req, uint32_t client_id, const s
         fprintf(stderr, "<3>[%d] missing demod_decimation parameter\n", client_id);
         return -1;
     }
+    // decimation is 8bit
+    if (req->demod_decimation > UINT8_MAX) {
+        fprintf(stderr, "<3>[%d] unsupported demod_decimation: %d\n", client_id, req->demod_decimation);
+        return -1;
+    }
+    if (req->rx_sampling_freq < (uint64_t) req->demod_baud_rate * req->demod_decimation) {
+        fprintf(stderr, "<3>[%d] not enough samples per symbol\n", client_id);
+        return -1;
+    }
     if (req->demod_destination != DEMOD_DESTINATION__FILE && req->demod_destination != DEMOD_DESTINATION__SOCKET && req->demod_destination != DEMOD_DESTINATION__BOTH) {
         fprintf(stderr, "<3>[%d] unknown demod_destination: %d\n", client_id, req->demod_destination);
         return -1;
-- 
2.43.0


From 4160623712ebd9266f285cb107ef290ecc21b7db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:39:43 +0000
Subject: [PATCH 13/28] fix: a client sending request byte by byte should not
 block others

---
 src/api_utils.c |  6 +++---
 src/tcp_utils.c | 36 ++++++++++++++++++++++++++++++++++++
 src/tcp_utils.h |  3 +++
 3 files changed, 42 insertions(+), 3 deletions(-)

diff --git a/src/api_utils.c b/src/api_utils.c
index de75b01..cb5269c 100644
--- a/src/api_utils.c
+++ b/src/api_utils.c
@@ -8,7 +8,7 @@
 uint32_t MAX_MESSAGE_LENGTH = 32 * 1024; // kilobyte
 
 int api_utils_read_header(int socket, struct message_header *header) {
-    int code = tcp_utils_read_data(header, sizeof(struct message_header), socket);
+    int code = tcp_utils_read_message(header, sizeof(struct message_header), socket);
     if (code == 0) {
         header->message_length = ntohl(header->message_length);
     }
@@ -45,7 +45,7 @@ int api_utils_read_tx_request(int socket, const struct message_header *header, s
     if (buffer == NULL) {
         return -ENOMEM;
     }
-    int code = tcp_utils_read_data(buffer, header->message_length, socket);
+    int code = tcp_utils_read_message(buffer, header->message_length, socket);
     if (code != 0) {
         free(buffer);
         return -1;
@@ -67,7 +67,7 @@ int api_utils_read_rx_request(int socket, const struct message_header *header, s
     if (buffer == NULL) {
         return -ENOMEM;
     }
-    int code = tcp_utils_read_data(buffer, header->message_length, socket);
+    int code = tcp_utils_read_message(buffer, header->message_length, socket);
     if (code != 0) {
         free(buffer);
         return -1;
diff --git a/src/tcp_utils.c b/src/tcp_utils.c
index 063a910..df50aa9 100644
--- a/src/tcp_utils.c
+++ b/src/tcp_utils.c
@@ -3,6 +3,8 @@
 #include <unistd.h>
 #include <errno.h>
 #include <sys/socket.h>
+#include <sys/time.h>
+#include <time.h>
 
 int tcp_utils_write_data(uint8_t *buffer, size_t total_len_bytes, int client_socket) {
     size_t left = total_len_bytes;
@@ -50,3 +52,37 @@ int tcp_utils_read_data(void *result, size_t len_bytes, int client_socket) {
     size_t actually_read = 0;
     return tcp_utils_read_data_partially(result, len_bytes, &actually_read, client_socket);
 }
+
+int tcp_utils_read_message(void *result, size_t len_bytes, int client_socket) {
+    struct timeval timeout = {0};
+    socklen_t timeout_len = sizeof(timeout);
+    if (getsockopt(client_socket, SOL_SOCKET, SO_RCVTIMEO, &timeout, &timeout_len) != 0 || timeout.tv_sec == 0) {
+        return tcp_utils_read_data(result, len_bytes, client_socket);
+    }
+    struct timespec start;
+    clock_gettime(CLOCK_MONOTONIC, &start);
+    size_t left = len_bytes;
+    while (left > 0) {
+        ssize_t received = recv(client_socket, (char *) result + (len_bytes - left), left, 0);
+        if (received < 0) {
+            if (errno == EINTR) {
+                continue;
+            }
+            if (errno == EWOULDBLOCK || errno == EAGAIN) {
+                return -errno;
+            }
+            return -1;
+        }
+        // client has closed the socket
+        if (received == 0) {
+            return -1;
+        }
+        left -= received;
+        struct timespec now;
+        clock_gettime(CLOCK_MONOTONIC, &now);
+        if (left > 0 && now.tv_sec - start.tv_sec > timeout.tv_sec) {
+            return -EAGAIN;
+        }
+    }
+    return 0;
+}
diff --git a/src/tcp_utils.h b/src/tcp_utils.h
index e039686..37dde92 100644
--- a/src/tcp_utils.h
+++ b/src/tcp_utils.h
@@ -8,6 +8,9 @@ int tcp_utils_write_data(uint8_t *buffer, size_t total_len_bytes, int client_soc
 
 int tcp_utils_read_data(void *result, size_t len_bytes, int client_socket);
 
+// same as tcp_utils_read_data, but the socket's read timeout is applied to the whole message
+int tcp_utils_read_message(void *result, size_t len_bytes, int client_socket);
+
 int tcp_utils_read_data_partially(void *result, size_t len_bytes, size_t *actually_read, int client_socket);
 
 #endif //SDR_MODEM_TCP_UTILS_H
-- 
2.43.0


From 226ca210e8b7aba92144b37c6541b781db5e58e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:39:43 +0000
Subject: [PATCH 14/28] fix: skip the body of unsupported messages to keep the
 message boundaries

---
 src/api_utils.c  | 14 ++++++++++++++
 src/api_utils.h  |  2 ++
 src/tcp_server.c |  4 +++-
 3 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/api_utils.c b/src/api_utils.c
index cb5269c..6cbc016 100644
--- a/src/api_utils.c
+++ b/src/api_utils.c
@@ -7,6 +7,17 @@
 
 uint32_t MAX_MESSAGE_LENGTH = 32 * 1024; // kilobyte
 
+void api_utils_skip(int socket, uint32_t len_bytes) {
+    uint8_t buffer[4096];
+    while (len_bytes > 0) {
+        uint32_t batch = len_bytes < sizeof(buffer) ? len_bytes : (uint32_t) sizeof(buffer);
+        if (tcp_utils_read_data(buffer, batch, socket) != 0) {
+            return;
+        }
+        len_bytes -= batch;
+    }
+}
+
 int api_utils_read_header(int socket, struct message_header *header) {
     int code = tcp_utils_read_message(header, sizeof(struct message_header), socket);
     if (code == 0) {
@@ -17,10 +28,13 @@ int api_utils_read_header(int socket, struct message_header *header) {
 
 int api_utils_read_tx_data(int socket, const struct message_header *header, struct TxData **request) {
     if (header->message_length > MAX_MESSAGE_LENGTH) {
+        // more messages might follow
+        api_utils_skip(socket, header->message_length);
         return -1;
     }
     uint8_t *buffer = malloc(sizeof(uint8_t) * header->message_length);
     if (buffer == NULL) {
+        api_utils_skip(socket, header->message_length);
         return -ENOMEM;
     }
     int code = tcp_utils_read_data(buffer, header->message_length, socket);
diff --git a/src/api_utils.h b/src/api_utils.h
index 7309a5d..bf90dd0 100644
--- a/src/api_utils.h
+++ b/src/api_utils.h
@@ -13,6 +13,8 @@ int api_utils_read_tx_request(int socket, const struct message_header *header, s
 
 int api_utils_read_tx_data(int socket, const struct message_header *header, struct TxData **request);
 
+void api_utils_skip(int socket, uint32_t len_bytes);
+
 int api_utils_write_response(int socket, ResponseStatus status, uint32_t details);
 
 void api_utils_convert_tle(char **tle, char (*output)[80]);
diff --git a/src/tcp_server.c b/src/tcp_server.c
index b40126b..28a2300 100644
--- a/src/tcp_server.c
+++ b/src/tcp_server.c
@@ -277,16 +277,18 @@ static void *tcp_worker_callback(void *arg) {
         }
         if (header.protocol_version != PROTOCOL_VERSION) {
             fprintf(stderr, "<3>[%d] unsupported protocol: %d\n", id, header.protocol_version);
+            api_utils_skip(worker->client_socket, header.message_length);
             continue;
         }
         if (header.type == TYPE_SHUTDOWN) {
             fprintf(stdout, "[%d] client requested disconnect\n", id);
             break;
-        } else if (header.type == TYPE_TX_DATA) {
+        } else if (header.type == TYPE_TX_DATA && worker->tx_req != NULL) {
             fprintf(stdout, "[%d] received tx request\n", id);
             handle_tx_data(worker, &header);
         } else {
             fprintf(stderr, "<3>[%d] unsupported request: %d\n", id, header.type);
+            api_utils_skip(worker->client_socket, header.message_length);
         }
     }
     //terminate dsp_worker if any
-- 
2.43.0


From a7e26da0ad257928a7f0515e1e384956843b1e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:39:43 +0000
Subject: [PATCH 15/28] fix: tx offset and doppler correction should handle
 full size messages

---
 src/tcp_server.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tcp_server.c b/src/tcp_server.c
index 28a2300..8b74286 100644
--- a/src/tcp_server.c
+++ b/src/tcp_server.c
@@ -556,7 +556,8 @@ void handle_tx_client(int client_socket, struct message_header *header, tcp_serv
         }
     }
     int samples_per_symbol = (int) ((double) tcp_worker->tx_req->tx_sampling_freq / tcp_worker->tx_req->mod_baud_rate);
-    uint32_t max_output_buffer = samples_per_symbol * server->server_config->buffer_size;
+    // 8 bits in every byte
+    uint32_t max_output_buffer = 8 * samples_per_symbol * server->server_config->buffer_size;
     if (tcp_worker->tx_req->doppler != NULL) {
         time_t start;
         if (tcp_worker->tx_req->file_settings != NULL) {
-- 
2.43.0


From e1f032f61c06705d61989426693bb228aab7404a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:39:43 +0000
Subject: [PATCH 16/28] fix: server should survive temporary failures to accept
 a client

---
 src/tcp_server.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/tcp_server.c b/src/tcp_server.c
index 8b74286..d225c95 100644
--- a/src/tcp_server.c
+++ b/src/tcp_server.c
@@ -709,7 +709,16 @@ static void *acceptor_worker(void *arg) {
         int client_socket;
         int addrlen = sizeof(address);
         if ((client_socket = accept(server->server_socket, (struct sockaddr *) &address, (socklen_t *) &addrlen)) < 0) {
-            break;
+            if (!server->is_running || errno == EINVAL || errno == EBADF || errno == ENOTSOCK) {
+                break;
+            }
+            // client might be disconnected already or not enough resources
+            // that shouldn't stop the server
+            perror("unable to accept client");
+            if (errno != EINTR && errno != ECONNABORTED) {
+                usleep(100000);
+            }
+            continue;
         }
 
         struct timeval tv;
-- 
2.43.0


From 50d64c78f0bcf63264a62817eb6ef12846404761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:40:47 +0000
Subject: [PATCH 17/28] fix: close listening socket when the server stops or
 cannot start

---
 src/tcp_server.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/tcp_server.c b/src/tcp_server.c
index d225c95..f1a3590 100644
--- a/src/tcp_server.c
+++ b/src/tcp_server.c
@@ -784,7 +784,7 @@ int tcp_server_create(struct server_config *config, tcp_server **server) {
     result->tcp_workers = NULL;
 
     int server_socket = socket(AF_INET, SOCK_STREAM, 0);
-    if (server_socket == 0) {
+    if (server_socket == -1) {
         free(result);
         perror("socket creation failed");
         return -1;
@@ -798,6 +798,7 @@ int tcp_server_create(struct server_config *config, tcp_server **server) {
     result->client_counter = -1;
     int opt = 1;
     if (setsockopt(server_socket, SOL_SOCKET, SO_REUSEADDR, &opt, sizeof(opt))) {
+        close(server_socket);
         free(result);
         perror("setsockopt - SO_REUSEADDR");
         return -1;
@@ -805,6 +806,7 @@ int tcp_server_create(struct server_config *config, tcp_server **server) {
 
 #ifdef SO_REUSEPORT
     if (setsockopt(server_socket, SOL_SOCKET, SO_REUSEPORT, &opt, sizeof(opt))) {
+        close(server_socket);
         free(result);
         perror("setsockopt - SO_REUSEPORT");
         return -1;
@@ -814,6 +816,7 @@ int tcp_server_create(struct server_config *config, tcp_server **server) {
     struct sockaddr_in address;
     address.sin_family = AF_INET;
     if (inet_pton(AF_INET, config->bind_address, &address.sin_addr) <= 0) {
+        close(server_socket);
         free(result);
         fprintf(stderr, "invalid address: %s\n", config->bind_address);
         return -1;
@@ -821,11 +824,13 @@ int tcp_server_create(struct server_config *config, tcp_server **server) {
     address.sin_port = htons(config->port);
 
     if (bind(server_socket, (struct sockaddr *) &address, sizeof(address)) < 0) {
+        close(server_socket);
         free(result);
         perror("bind failed");
         return -1;
     }
     if (listen(server_socket, 3) < 0) {
+        close(server_socket);
         free(result);
         perror("listen failed");
         return -1;
@@ -834,6 +839,7 @@ int tcp_server_create(struct server_config *config, tcp_server **server) {
     pthread_t acceptor_thread;
     int code = pthread_create(&acceptor_thread, NULL, &acceptor_worker, result);
     if (code != 0) {
+        close(server_socket);
         free(result);
         return -1;
     }
@@ -845,6 +851,9 @@ int tcp_server_create(struct server_config *config, tcp_server **server) {
 
 void tcp_server_join_thread(tcp_server *server) {
     pthread_join(server->acceptor_thread, NULL);
+    if (server->server_socket != -1) {
+        close(server->server_socket);
+    }
     free(server);
 }
 
@@ -859,5 +868,6 @@ void tcp_server_destroy(tcp_server *server) {
     int code = shutdown(server->server_socket, SHUT_RDWR);
     if (code != 0) {
         close(server->server_socket);
+        server->server_socket = -1;
     }
 }
-- 
2.43.0


From 91c53ff572269a6cda3eedd5cd9a7c7b69401fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:40:47 +0000
Subject: [PATCH 18/28] fix: disconnect the client when its demodulation was
 terminated

---
 src/dsp_worker.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/dsp_worker.c b/src/dsp_worker.c
index 5f39988..f9be018 100644
--- a/src/dsp_worker.c
+++ b/src/dsp_worker.c
@@ -7,6 +7,7 @@
 #include "api.h"
 #include "dsp/doppler.h"
 #include <string.h>
+#include <sys/socket.h>
 #include <complex.h>
 #include "tcp_utils.h"
 #include "api_utils.h"
@@ -101,6 +102,10 @@ static void *dsp_worker_callback(void *arg) {
         }
 
     }
+    // nobody takes the data from now on. do not block the producer
+    interrupt_waiting_the_data(worker->queue);
+    // no more data will be sent. let the client and tcp_worker know
+    shutdown(worker->client_socket, SHUT_RDWR);
     printf("[%d] dsp_worker stopped\n", worker->id);
     return (void *) 0;
 }
-- 
2.43.0


From 2ad778945809891b26720a246949d3cc0d3e8ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:42:15 +0000
Subject: [PATCH 19/28] fix: races between client setup, sdr data delivery and
 client termination

client thread is started only after all resources are initialized, samples are
delivered only after the response, sdr workers without data are not re-used,
dsp workers are destroyed without holding locks needed by other clients
---
 src/sdr_worker.c |  50 ++++++++++++-----
 src/sdr_worker.h |   3 +-
 src/tcp_server.c | 138 ++++++++++++++++++++++++++++-------------------
 src/tcp_utils.c  |   2 +
 4 files changed, 122 insertions(+), 71 deletions(-)

diff --git a/src/sdr_worker.c b/src/sdr_worker.c
index 62d7712..1651545 100644
--- a/src/sdr_worker.c
+++ b/src/sdr_worker.c
@@ -15,6 +15,9 @@ struct sdr_worker_t {
     linked_list *dsp_configs;
     pthread_t sdr_thread;
     pthread_mutex_t mutex;
+    pthread_cond_t condition;
+    // no more data will be received from the device
+    bool finished;
 };
 
 struct array_t {
@@ -32,7 +35,14 @@ static void *sdr_worker_callback(void *arg) {
     sdr_worker *worker = (sdr_worker *) arg;
     fprintf(stdout, "[%d] sdr_worker is starting\n", worker->id);
     struct array_t output;
-    while (true) {
+    // wait for the first consumer, so that it could receive everything from the start
+    pthread_mutex_lock(&worker->mutex);
+    while (worker->dsp_configs == NULL && !worker->finished) {
+        pthread_cond_wait(&worker->condition, &worker->mutex);
+    }
+    bool running = !worker->finished;
+    pthread_mutex_unlock(&worker->mutex);
+    while (running) {
         int code = worker->rx_device->sdr_process_rx(&output.output, &output.output_len, worker->rx_device->plugin);
         if (code < -1 && output.output_len == 0) {
             // read timeout happened. it's ok.
@@ -49,6 +59,7 @@ static void *sdr_worker_callback(void *arg) {
     //this would close all client sockets
     //and initiate cascade shutdown of sdr and dsp workers
     pthread_mutex_lock(&worker->mutex);
+    worker->finished = true;
     linked_list_foreach(NULL, &dsp_worker_shutdown, worker->dsp_configs);
     pthread_mutex_unlock(&worker->mutex);
     return (void *) 0;
@@ -57,6 +68,11 @@ static void *sdr_worker_callback(void *arg) {
 int sdr_worker_create(uint32_t id, struct sdr_rx *rx, sdr_device *rx_device, sdr_worker **worker) {
     struct sdr_worker_t *result = malloc(sizeof(struct sdr_worker_t));
     if (result == NULL) {
+        // rx and rx_device are always owned by the worker
+        rx_device->stop_rx(rx_device->plugin);
+        rx_device->destroy(rx_device->plugin);
+        free(rx_device);
+        free(rx);
         return -ENOMEM;
     }
     // init all fields with 0 so that destroy_* method would work
@@ -66,6 +82,7 @@ int sdr_worker_create(uint32_t id, struct sdr_rx *rx, sdr_device *rx_device, sdr
     result->dsp_configs = NULL;
     result->rx = rx;
     result->mutex = (pthread_mutex_t) PTHREAD_MUTEX_INITIALIZER;
+    result->condition = (pthread_cond_t) PTHREAD_COND_INITIALIZER;
     result->rx_device = rx_device;
 
     pthread_t sdr_thread;
@@ -87,26 +104,22 @@ bool sdr_worker_find_closest(void *id, void *data) {
     struct sdr_rx *rx = (struct sdr_rx *) id;
     sdr_worker *worker = (sdr_worker *) data;
     if (worker->rx->rx_center_freq == rx->rx_center_freq &&
-        worker->rx->rx_sampling_freq >= rx->rx_sampling_freq &&
+        worker->rx->rx_sampling_freq == rx->rx_sampling_freq &&
         worker->rx->rx_offset == rx->rx_offset) {
-        return true;
+        pthread_mutex_lock(&worker->mutex);
+        bool result = !worker->finished;
+        pthread_mutex_unlock(&worker->mutex);
+        return result;
     }
     return false;
 }
 
-void sdr_worker_destroy_by_dsp_worker_id(uint32_t id, sdr_worker *worker) {
-    if (worker == NULL) {
-        return;
-    }
+bool sdr_worker_remove_dsp_worker(uint32_t id, sdr_worker *worker) {
     pthread_mutex_lock(&worker->mutex);
-    if (worker->dsp_configs != NULL) {
-        linked_list_destroy_by_id(&id, &dsp_worker_find_by_id, &worker->dsp_configs);
-    }
+    linked_list_remove_by_id(&id, &dsp_worker_find_by_id, &worker->dsp_configs);
     bool result = (worker->dsp_configs == NULL);
     pthread_mutex_unlock(&worker->mutex);
-    if (result) {
-        sdr_worker_destroy(worker);
-    }
+    return result;
 }
 
 void sdr_worker_destroy(void *data) {
@@ -114,6 +127,11 @@ void sdr_worker_destroy(void *data) {
         return;
     }
     sdr_worker *worker = (sdr_worker *) data;
+    // sdr thread might be still waiting for the first consumer
+    pthread_mutex_lock(&worker->mutex);
+    worker->finished = true;
+    pthread_cond_broadcast(&worker->condition);
+    pthread_mutex_unlock(&worker->mutex);
     //gracefully shutdown connection
     if (worker->rx_device != NULL) {
         worker->rx_device->stop_rx(worker->rx_device->plugin);
@@ -141,7 +159,11 @@ void sdr_worker_destroy(void *data) {
 
 int sdr_worker_add_dsp_worker(dsp_worker *worker, sdr_worker *sdr) {
     pthread_mutex_lock(&sdr->mutex);
-    int code = linked_list_add(worker, &dsp_worker_destroy, &sdr->dsp_configs);
+    int code = -1;
+    if (!sdr->finished) {
+        code = linked_list_add(worker, &dsp_worker_destroy, &sdr->dsp_configs);
+        pthread_cond_broadcast(&sdr->condition);
+    }
     pthread_mutex_unlock(&sdr->mutex);
     return code;
 }
\ No newline at end of file
diff --git a/src/sdr_worker.h b/src/sdr_worker.h
index 30d0275..f4b1d9d 100644
--- a/src/sdr_worker.h
+++ b/src/sdr_worker.h
@@ -12,7 +12,8 @@ void sdr_worker_destroy(void *data);
 
 bool sdr_worker_find_closest(void *id, void *data);
 
-void sdr_worker_destroy_by_dsp_worker_id(uint32_t id, sdr_worker *sdr);
+// returns true if there are no more dsp workers left
+bool sdr_worker_remove_dsp_worker(uint32_t id, sdr_worker *sdr);
 
 int sdr_worker_add_dsp_worker(dsp_worker *worker, sdr_worker *sdr);
 
diff --git a/src/tcp_server.c b/src/tcp_server.c
index f1a3590..fc28dda 100644
--- a/src/tcp_server.c
+++ b/src/tcp_server.c
@@ -42,6 +42,7 @@ struct tcp_worker {
     pthread_t client_thread;
     tcp_server *server;
     sdr_worker *sdr;
+    dsp_worker *dsp;
 
     uint32_t buffer_size;
     uint8_t *buffer;
@@ -259,10 +260,42 @@ void handle_tx_data(struct tcp_worker *worker, struct message_header *header) {
     tx_data__free_unpacked(data, NULL);
 }
 
+// server->mutex should be locked
+void tcp_worker_detach_sdr(struct tcp_worker *worker) {
+    if (worker->sdr != NULL && !sdr_worker_remove_dsp_worker(worker->id, worker->sdr)) {
+        // some other clients are using it
+        worker->sdr = NULL;
+    }
+}
+
+void tcp_worker_release_devices(struct tcp_worker *worker) {
+    //terminate dsp_worker if any
+    if (worker->dsp != NULL) {
+        // sdr_worker might be blocked by this dsp_worker
+        dsp_worker_shutdown(NULL, worker->dsp);
+        pthread_mutex_lock(&worker->server->mutex);
+        tcp_worker_detach_sdr(worker);
+        sdr_worker *sdr = worker->sdr;
+        worker->sdr = NULL;
+        pthread_mutex_unlock(&worker->server->mutex);
+        dsp_worker_destroy(worker->dsp);
+        //terminate sdr_worker if no more dsp_workers there
+        sdr_worker_destroy(sdr);
+    }
+    //terminate tx device if any
+    if (worker->tx_device != NULL) {
+        worker->tx_device->destroy(worker->tx_device->plugin);
+        free(worker->tx_device);
+    }
+}
+
 static void *tcp_worker_callback(void *arg) {
     struct tcp_worker *worker = (struct tcp_worker *) arg;
     uint32_t id = worker->id;
     fprintf(stdout, "[%d] tcp_worker is starting\n", id);
+    // wait until the client is fully initialized
+    pthread_mutex_lock(&worker->server->mutex);
+    pthread_mutex_unlock(&worker->server->mutex);
     while (worker->is_running) {
         struct message_header header;
         int code = api_utils_read_header(worker->client_socket, &header);
@@ -291,14 +324,7 @@ static void *tcp_worker_callback(void *arg) {
             api_utils_skip(worker->client_socket, header.message_length);
         }
     }
-    //terminate dsp_worker if any
-    //terminate sdr_worker if no more dsp_workers there
-    sdr_worker_destroy_by_dsp_worker_id(worker->id, worker->sdr);
-    //terminate tx device if any
-    if (worker->tx_device != NULL) {
-        worker->tx_device->destroy(worker->tx_device->plugin);
-        free(worker->tx_device);
-    }
+    tcp_worker_release_devices(worker);
     close(worker->client_socket);
 
     worker->is_running = false;
@@ -414,7 +440,7 @@ int tcp_server_init_tx_device(uint32_t id, struct TxRequest *req, tcp_server *se
     return 0;
 }
 
-int tcp_server_init_rx_device(dsp_worker *dsp_worker, tcp_server *server, struct tcp_worker *tcp_worker) {
+int tcp_server_init_rx_device(tcp_server *server, struct tcp_worker *tcp_worker) {
     struct sdr_rx *rx = NULL;
     int code = tcp_worker_convert(tcp_worker->rx_req, &rx);
     if (code != 0) {
@@ -435,7 +461,6 @@ int tcp_server_init_rx_device(dsp_worker *dsp_worker, tcp_server *server, struct
             // take id from the first tcp client
             code = sdr_worker_create(tcp_worker->id, rx, rx_device, &sdr);
             if (code != 0) {
-                free(rx);
                 return -RESPONSE_DETAILS_INTERNAL_ERROR;
             }
             tcp_worker->sdr = sdr;
@@ -470,7 +495,6 @@ int tcp_server_init_rx_device(dsp_worker *dsp_worker, tcp_server *server, struct
         sdr_worker *sdr = NULL;
         code = sdr_worker_create(tcp_worker->id, rx, rx_device, &sdr);
         if (code != 0) {
-            free(rx);
             return -RESPONSE_DETAILS_INTERNAL_ERROR;
         }
         tcp_worker->sdr = sdr;
@@ -485,7 +509,6 @@ int tcp_server_init_rx_device(dsp_worker *dsp_worker, tcp_server *server, struct
         sdr_worker *sdr = NULL;
         code = sdr_worker_create(tcp_worker->id, rx, rx_device, &sdr);
         if (code != 0) {
-            free(rx);
             return -RESPONSE_DETAILS_INTERNAL_ERROR;
         }
         tcp_worker->sdr = sdr;
@@ -495,17 +518,29 @@ int tcp_server_init_rx_device(dsp_worker *dsp_worker, tcp_server *server, struct
         return -1;
     }
 
-    code = sdr_worker_add_dsp_worker(dsp_worker, tcp_worker->sdr);
+    server->rx_initialized = true;
+    return 0;
+}
+
+bool tcp_worker_find_by_id(void *id, void *data) {
+    struct tcp_worker *worker = (struct tcp_worker *) data;
+    return worker->id == *(uint32_t *) id;
+}
+
+// server->mutex should be locked. client's thread waits for it before handling any messages
+int tcp_server_start_worker(struct tcp_worker *tcp_worker, tcp_server *server) {
+    int code = linked_list_add(tcp_worker, &tcp_worker_destroy, &server->tcp_workers);
     if (code != 0) {
         return -RESPONSE_DETAILS_INTERNAL_ERROR;
     }
-
-    code = linked_list_add(tcp_worker, &tcp_worker_destroy, &server->tcp_workers);
+    tcp_worker->is_running = true;
+    pthread_t client_thread;
+    code = pthread_create(&client_thread, NULL, &tcp_worker_callback, tcp_worker);
     if (code != 0) {
+        linked_list_remove_by_id(&tcp_worker->id, &tcp_worker_find_by_id, &server->tcp_workers);
         return -RESPONSE_DETAILS_INTERNAL_ERROR;
     }
-
-    server->rx_initialized = true;
+    tcp_worker->client_thread = client_thread;
     return 0;
 }
 
@@ -596,31 +631,18 @@ void handle_tx_client(int client_socket, struct message_header *header, tcp_serv
             return;
         }
     }
+    pthread_mutex_lock(&server->mutex);
+    code = 0;
     if (server->server_config->tx_sdr_type == TX_SDR_TYPE_PLUTOSDR || server->server_config->tx_sdr_type == TX_SDR_TYPE_FILE) {
-        pthread_mutex_lock(&server->mutex);
         code = tcp_server_init_tx_device(tcp_worker->id, tcp_worker->tx_req, server, &tcp_worker->tx_device);
-        pthread_mutex_unlock(&server->mutex);
-        if (code < 0) {
-            tcp_server_write_response_and_close(client_socket, RESPONSE_STATUS__FAILURE, -code);
-            tcp_worker_destroy(tcp_worker);
-            return;
-        }
     }
-
-    tcp_worker->is_running = true;
-
-    pthread_t client_thread;
-    code = pthread_create(&client_thread, NULL, &tcp_worker_callback, tcp_worker);
-    if (code != 0) {
-        tcp_server_write_response_and_close(client_socket, RESPONSE_STATUS__FAILURE, RESPONSE_DETAILS_INTERNAL_ERROR);
-        tcp_worker_destroy(tcp_worker);
-        return;
+    if (code == 0) {
+        code = tcp_server_start_worker(tcp_worker, server);
     }
-    tcp_worker->client_thread = client_thread;
-
-    code = linked_list_add(tcp_worker, &tcp_worker_destroy, &server->tcp_workers);
-    if (code != 0) {
-        tcp_server_write_response_and_close(client_socket, RESPONSE_STATUS__FAILURE, RESPONSE_DETAILS_INTERNAL_ERROR);
+    if (code < 0) {
+        pthread_mutex_unlock(&server->mutex);
+        tcp_worker_release_devices(tcp_worker);
+        tcp_server_write_response_and_close(client_socket, RESPONSE_STATUS__FAILURE, -code);
         tcp_worker_destroy(tcp_worker);
         return;
     }
@@ -630,6 +652,7 @@ void handle_tx_client(int client_socket, struct message_header *header, tcp_serv
             tcp_worker->tx_req->tx_offset,
             tcp_worker->tx_req->tx_sampling_freq,
             tcp_worker->tx_req->mod_baud_rate);
+    pthread_mutex_unlock(&server->mutex);
 }
 
 void handle_rx_client(int client_socket, struct message_header *header, tcp_server *server) {
@@ -666,19 +689,7 @@ void handle_rx_client(int client_socket, struct message_header *header, tcp_serv
         return;
     }
 
-    tcp_worker->is_running = true;
-
-    pthread_t client_thread;
-    int code = pthread_create(&client_thread, NULL, &tcp_worker_callback, tcp_worker);
-    if (code != 0) {
-        tcp_server_write_response_and_close(client_socket, RESPONSE_STATUS__FAILURE, RESPONSE_DETAILS_INTERNAL_ERROR);
-        tcp_worker_destroy(tcp_worker);
-        return;
-    }
-    tcp_worker->client_thread = client_thread;
-
-    dsp_worker *dsp_worker = NULL;
-    code = dsp_worker_create(tcp_worker->id, tcp_worker->client_socket, server->server_config, tcp_worker->rx_req, &dsp_worker);
+    int code = dsp_worker_create(tcp_worker->id, tcp_worker->client_socket, server->server_config, tcp_worker->rx_req, &tcp_worker->dsp);
     if (code != 0) {
         tcp_server_write_response_and_close(client_socket, RESPONSE_STATUS__FAILURE, RESPONSE_DETAILS_INTERNAL_ERROR);
         tcp_worker_destroy(tcp_worker);
@@ -686,13 +697,18 @@ void handle_rx_client(int client_socket, struct message_header *header, tcp_serv
     }
 
     pthread_mutex_lock(&server->mutex);
-    code = tcp_server_init_rx_device(dsp_worker, server, tcp_worker);
-    pthread_mutex_unlock(&server->mutex);
+    code = tcp_server_init_rx_device(server, tcp_worker);
+    if (code == 0) {
+        code = tcp_server_start_worker(tcp_worker, server);
+    }
     if (code != 0) {
-        tcp_server_write_response_and_close(client_socket, RESPONSE_STATUS__FAILURE, -code);
+        tcp_worker_detach_sdr(tcp_worker);
+        pthread_mutex_unlock(&server->mutex);
+        api_utils_write_response(client_socket, RESPONSE_STATUS__FAILURE, -code);
         // this will trigger sdr_worker destroy if any
+        tcp_worker_release_devices(tcp_worker);
+        close(client_socket);
         tcp_worker_destroy(tcp_worker);
-        dsp_worker_destroy(dsp_worker);
         return;
     }
 
@@ -700,6 +716,15 @@ void handle_rx_client(int client_socket, struct message_header *header, tcp_serv
     fprintf(stdout, "[%d] demod: %s, rx freq: %" PRIu64 ", rx offset: %" PRId64 ", rx sampling_rate: %" PRIu64 ", baud: %d, destination: %s doppler: %d\n", tcp_worker->id,
             protobuf_c_enum_descriptor_get_value(&modem_type__descriptor, tcp_worker->rx_req->demod_type)->name, tcp_worker->rx_req->rx_center_freq, tcp_worker->rx_req->rx_offset,
             tcp_worker->rx_req->rx_sampling_freq, tcp_worker->rx_req->demod_baud_rate, protobuf_c_enum_descriptor_get_value(&demod_destination__descriptor, tcp_worker->rx_req->demod_destination)->name, tcp_worker->rx_req->doppler != NULL);
+    // samples should follow the response
+    code = sdr_worker_add_dsp_worker(tcp_worker->dsp, tcp_worker->sdr);
+    if (code != 0) {
+        fprintf(stderr, "<3>[%d] unable to receive data from sdr\n", tcp_worker->id);
+        tcp_worker_detach_sdr(tcp_worker);
+        // client's thread will release everything
+        shutdown(client_socket, SHUT_RDWR);
+    }
+    pthread_mutex_unlock(&server->mutex);
 }
 
 static void *acceptor_worker(void *arg) {
@@ -716,7 +741,8 @@ static void *acceptor_worker(void *arg) {
             // that shouldn't stop the server
             perror("unable to accept client");
             if (errno != EINTR && errno != ECONNABORTED) {
-                usleep(100000);
+                struct timeval delay = {.tv_sec = 0, .tv_usec = 100000};
+                select(0, NULL, NULL, NULL, &delay);
             }
             continue;
         }
diff --git a/src/tcp_utils.c b/src/tcp_utils.c
index df50aa9..f13c519 100644
--- a/src/tcp_utils.c
+++ b/src/tcp_utils.c
@@ -1,3 +1,5 @@
+#define _POSIX_C_SOURCE 200112L
+
 #include "tcp_utils.h"
 #include <stdio.h>
 #include <unistd.h>
-- 
2.43.0


From 5b57278172a2f8a1ce65ce2ef2f873f6dabe2ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:43:16 +0000
Subject: [PATCH 20/28] fix: memory leaks and double free when a memory
 allocation fails

---
 src/dsp/fir_filter.c        | 12 +++++++++---
 src/dsp/gfsk_mod.c          |  1 +
 src/dsp/interp_fir_filter.c |  1 -
 src/sdr/plutosdr.c          |  2 ++
 4 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/dsp/fir_filter.c b/src/dsp/fir_filter.c
index 34eb25d..256bb47 100644
--- a/src/dsp/fir_filter.c
+++ b/src/dsp/fir_filter.c
@@ -12,9 +12,15 @@ int create_aligned_taps(const float *original_taps, size_t taps_len, fir_filter
     if (result == NULL) {
         return -1;
     }
+    memset(result, 0, number_of_aligned * sizeof(float *));
+    filter->taps = result;
+    filter->aligned_taps_len = number_of_aligned;
     for (int i = 0; i < number_of_aligned; i++) {
         size_t aligned_taps_len = taps_len + number_of_aligned - 1;
         result[i] = (float *) volk_malloc(aligned_taps_len * sizeof(float), filter->alignment);
+        if (result[i] == NULL) {
+            return -ENOMEM;
+        }
         // some taps will be longer than original, but
         // since they contain zeros, multiplication on an input will produce 0
         // there is a tradeoff: multiply unaligned input or
@@ -27,8 +33,6 @@ int create_aligned_taps(const float *original_taps, size_t taps_len, fir_filter
             result[i][i + j] = original_taps[taps_len - j - 1];
         }
     }
-    filter->taps = result;
-    filter->aligned_taps_len = number_of_aligned;
     return 0;
 }
 
@@ -36,10 +40,13 @@ int fir_filter_create(uint8_t decimation, float *taps, size_t taps_len,
                       size_t max_input_buffer_length, size_t num_bytes, fir_filter **filter) {
     struct fir_filter_t *result = malloc(sizeof(struct fir_filter_t));
     if (result == NULL) {
+        // taps are always owned by the filter
+        free(taps);
         return -ENOMEM;
     }
     // init all fields with 0 so that destroy_* method would work
     *result = (struct fir_filter_t) {0};
+    result->original_taps = taps;
 
     char *alignment_override = getenv("VOLK_ALIGNMENT");
     if (alignment_override != NULL) {
@@ -55,7 +62,6 @@ int fir_filter_create(uint8_t decimation, float *taps, size_t taps_len,
 
     result->decimation = decimation;
     result->num_bytes = num_bytes;
-    result->original_taps = taps;
     result->taps_len = taps_len;
     result->history_offset = taps_len - 1;
     int code = create_aligned_taps(taps, taps_len, result);
diff --git a/src/dsp/gfsk_mod.c b/src/dsp/gfsk_mod.c
index 23320fa..59e947b 100644
--- a/src/dsp/gfsk_mod.c
+++ b/src/dsp/gfsk_mod.c
@@ -22,6 +22,7 @@ int gfsk_mod_convolve(float *x, size_t x_len, float *y, size_t y_len, float **ou
     }
     float *temp = malloc(sizeof(float) * result_len);
     if (temp == NULL) {
+        free(result);
         return -ENOMEM;
     }
     memset(temp, 0, sizeof(float) * result_len);
diff --git a/src/dsp/interp_fir_filter.c b/src/dsp/interp_fir_filter.c
index 183803a..4728d3f 100644
--- a/src/dsp/interp_fir_filter.c
+++ b/src/dsp/interp_fir_filter.c
@@ -117,7 +117,6 @@ int interp_fir_filter_create(float *taps, size_t taps_len, uint8_t interpolation
         code = fir_filter_create(1, interleaved_taps[i], filter_taps_len, max_input_buffer_length, sizeof(float), &curFilter);
         //init all filters anyway
         if (code != 0) {
-            free(interleaved_taps[i]);
             result_code = code;
             result->filters[i] = NULL;
         } else {
diff --git a/src/sdr/plutosdr.c b/src/sdr/plutosdr.c
index efcf39c..18fc538 100644
--- a/src/sdr/plutosdr.c
+++ b/src/sdr/plutosdr.c
@@ -451,6 +451,8 @@ int plutosdr_create(uint32_t id, bool rx_only, struct stream_cfg *rx_config, str
     }
     struct plutosdr_t *pluto = malloc(sizeof(struct plutosdr_t));
     if (pluto == NULL) {
+        free(rx_config);
+        free(tx_config);
         return -ENOMEM;
     }
     *pluto = (struct plutosdr_t) {0};
-- 
2.43.0


From ac8578868acf782d0e1f63e8ccf5c251fd90a67c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:12:40 +0000
Subject: [PATCH 21/28] fix: do not use missing iio devices or channels

---
 src/sdr/plutosdr.c | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/sdr/plutosdr.c b/src/sdr/plutosdr.c
index 18fc538..d347abd 100644
--- a/src/sdr/plutosdr.c
+++ b/src/sdr/plutosdr.c
@@ -190,12 +190,20 @@ static char *plutosdr_format_channel_name(const char *type, int id) {
     return plutosdr_tmpstr;
 }
 
+// device might be missing or be disconnected already
+static struct iio_channel *plutosdr_find_channel(struct iio_device *dev, const char *channel_name, bool output, plutosdr *pluto) {
+    if (dev == NULL) {
+        return NULL;
+    }
+    return pluto->lib->iio_device_find_channel(dev, channel_name, output);
+}
+
 static struct iio_channel *plutosdr_find_phy_channel(struct iio_context *ctx, enum iio_direction d, const char *channel_name, plutosdr *iio) {
     switch (d) {
         case RX:
-            return iio->lib->iio_device_find_channel(iio->lib->iio_context_find_device(ctx, "ad9361-phy"), channel_name, false);
+            return plutosdr_find_channel(iio->lib->iio_context_find_device(ctx, "ad9361-phy"), channel_name, false, iio);
         case TX:
-            return iio->lib->iio_device_find_channel(iio->lib->iio_context_find_device(ctx, "ad9361-phy"), channel_name, true);
+            return plutosdr_find_channel(iio->lib->iio_context_find_device(ctx, "ad9361-phy"), channel_name, true, iio);
         default:
             return NULL;
     }
@@ -221,7 +229,10 @@ static int plutosdr_write_lli(struct iio_channel *chn, const char *what, long lo
 int plutosdr_enable_fir_filter(struct iio_device *dev, bool enable, plutosdr *pluto) {
     int ret = pluto->lib->iio_device_attr_write_bool(dev, "in_out_voltage_filter_fir_en", enable);
     if (ret < 0) {
-        ret = pluto->lib->iio_channel_attr_write_bool(pluto->lib->iio_device_find_channel(dev, "out", false), "voltage_filter_fir_en", enable);
+        struct iio_channel *channel = pluto->lib->iio_device_find_channel(dev, "out", false);
+        if (channel != NULL) {
+            ret = pluto->lib->iio_channel_attr_write_bool(channel, "voltage_filter_fir_en", enable);
+        }
     }
     return ret;
 }
@@ -230,9 +241,9 @@ static struct iio_channel *plutosdr_find_lo_channel(struct iio_context *ctx, enu
     switch (d) {
         // LO chan is always output, i.e. true
         case RX:
-            return pluto->lib->iio_device_find_channel(pluto->lib->iio_context_find_device(ctx, "ad9361-phy"), "altvoltage0", true);
+            return plutosdr_find_channel(pluto->lib->iio_context_find_device(ctx, "ad9361-phy"), "altvoltage0", true, pluto);
         case TX:
-            return pluto->lib->iio_device_find_channel(pluto->lib->iio_context_find_device(ctx, "ad9361-phy"), "altvoltage1", true);
+            return plutosdr_find_channel(pluto->lib->iio_context_find_device(ctx, "ad9361-phy"), "altvoltage1", true, pluto);
         default:
             return NULL;
     }
@@ -342,6 +353,10 @@ int plutosdr_setup_fir_filter(struct iio_context *ctx, struct stream_cfg *rx_con
     }
 
     struct iio_device *phy_device = pluto->lib->iio_context_find_device(ctx, "ad9361-phy");
+    if (phy_device == NULL) {
+        fprintf(stderr, "unable to find phy device\n");
+        return -1;
+    }
 
     // filter is not needed
     if (rx_fir_filter_taps == NULL && tx_fir_filter_taps == NULL) {
-- 
2.43.0


From c2dbdf25286706c6f7e1d7302aff5fc765235986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:14:34 +0000
Subject: [PATCH 22/28] fix: respond to a client even if memory cannot be
 allocated

---
 src/api_utils.c | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/api_utils.c b/src/api_utils.c
index 6cbc016..92e86c0 100644
--- a/src/api_utils.c
+++ b/src/api_utils.c
@@ -100,8 +100,11 @@ int api_utils_write_response(int socket, ResponseStatus status, uint32_t details
     response.status = status;
     response.details = details;
 
+    // response has only 2 integer fields. do not allocate memory, otherwise
+    // the client won't be able to get a response when the memory is not available
+    uint8_t buffer[sizeof(struct message_header) + 64];
     size_t len = response__get_packed_size(&response);
-    if (len > UINT32_MAX) {
+    if (len > sizeof(buffer) - sizeof(struct message_header)) {
         return -1;
     }
 
@@ -111,16 +114,10 @@ int api_utils_write_response(int socket, ResponseStatus status, uint32_t details
     header.message_length = htonl((uint32_t) len);
 
     size_t buffer_len = sizeof(struct message_header) + sizeof(uint8_t) * len;
-    uint8_t *buffer = malloc(buffer_len);
-    if (buffer == NULL) {
-        return -ENOMEM;
-    }
     memcpy(buffer, &header, sizeof(struct message_header));
     response__pack(&response, buffer + sizeof(struct message_header));
 
-    int code = tcp_utils_write_data(buffer, buffer_len, socket);
-    free(buffer);
-    return code;
+    return tcp_utils_write_data(buffer, buffer_len, socket);
 }
 
 void api_utils_convert_tle(char **tle, char (*output)[80]) {
-- 
2.43.0


From 8e06b785a8e94a208d9dc5f9f7538a042a07f291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:36:16 +0000
Subject: [PATCH 23/28] fix: refuse transmission if the transmitter cannot be
 powered up

---
 src/sdr/plutosdr.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/sdr/plutosdr.c b/src/sdr/plutosdr.c
index d347abd..86ade15 100644
--- a/src/sdr/plutosdr.c
+++ b/src/sdr/plutosdr.c
@@ -268,7 +268,11 @@ int plutosdr_configure_streaming_channel(struct iio_context *ctx, bool rx_only,
         }
     }
     if (type == TX) {
-        plutosdr_write_lli(chn, "powerdown", 0, iio);
+        // without LO nothing will be transmitted
+        int code = plutosdr_write_lli(chn, "powerdown", 0, iio);
+        if (code != 0) {
+            return code;
+        }
     }
 
     int code = plutosdr_write_lli(chn, "frequency", (long long) cfg->center_freq, iio);
-- 
2.43.0


From a7918e62f9cf8d72f09a4fafc8778d42b56be7d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:25:18 +0000
Subject: [PATCH 24/28] fix: refuse settings of a wrong type or out of range
 instead of crashing or using 0

---
 src/server_config.c | 54 +++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 54 insertions(+)

diff --git a/src/server_config.c b/src/server_config.c
index 234b6a9..fdb037b 100644
--- a/src/server_config.c
+++ b/src/server_config.c
@@ -23,6 +23,55 @@ char *read_and_copy_str(const config_setting_t *setting, const char *default_val
     return result;
 }
 
+// options of an invalid type cannot be silently replaced by 0 or NULL
+static int server_config_validate(const config_t *libconfig) {
+    static const struct {
+        const char *name;
+        long long min;
+        long long max;
+    } int_options[] = {
+            {"buffer_size",                1, INT32_MAX},
+            {"port",                       0, UINT16_MAX},
+            {"read_timeout_seconds",       1, INT32_MAX},
+            {"queue_size",                 1, UINT16_MAX},
+            {"rx_sdr_server_port",         1, UINT16_MAX},
+            {"tx_plutosdr_timeout_millis", 0, INT32_MAX}
+    };
+    static const char *const float_options[] = {"tx_plutosdr_gain", "rx_plutosdr_gain"};
+    static const char *const string_options[] = {"bind_address", "base_path", "rx_sdr_type", "rx_sdr_server_address", "tx_sdr_type", "rx_file_base_path", "tx_file_base_path"};
+
+    for (size_t i = 0; i < sizeof(int_options) / sizeof(int_options[0]); i++) {
+        const config_setting_t *setting = config_lookup(libconfig, int_options[i].name);
+        if (setting == NULL) {
+            continue;
+        }
+        if (config_setting_type(setting) != CONFIG_TYPE_INT) {
+            fprintf(stderr, "<3>%s should be an integer\n", int_options[i].name);
+            return -1;
+        }
+        int value = config_setting_get_int(setting);
+        if (value < int_options[i].min || value > int_options[i].max) {
+            fprintf(stderr, "<3>%s is out of range: %d\n", int_options[i].name, value);
+            return -1;
+        }
+    }
+    for (size_t i = 0; i < sizeof(float_options) / sizeof(float_options[0]); i++) {
+        const config_setting_t *setting = config_lookup(libconfig, float_options[i]);
+        if (setting != NULL && !config_setting_is_number(setting)) {
+            fprintf(stderr, "<3>%s should be a number\n", float_options[i]);
+            return -1;
+        }
+    }
+    for (size_t i = 0; i < sizeof(string_options) / sizeof(string_options[0]); i++) {
+        const config_setting_t *setting = config_lookup(libconfig, string_options[i]);
+        if (setting != NULL && config_setting_type(setting) != CONFIG_TYPE_STRING) {
+            fprintf(stderr, "<3>%s should be a string\n", string_options[i]);
+            return -1;
+        }
+    }
+    return 0;
+}
+
 int server_config_create(struct server_config **config, const char *path) {
     fprintf(stdout, "loading configuration from: %s\n", path);
     struct server_config *result = malloc(sizeof(struct server_config));
@@ -42,6 +91,11 @@ int server_config_create(struct server_config **config, const char *path) {
         return -1;
     }
 
+    if (server_config_validate(&libconfig) != 0) {
+        config_destroy(&libconfig);
+        server_config_destroy(result);
+        return -1;
+    }
     const config_setting_t *setting = config_lookup(&libconfig, "buffer_size");
     uint32_t buffer_size;
     if (setting == NULL) {
-- 
2.43.0


From 9c758370617d383a6ece9d813a406554440cbb52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:25:18 +0000
Subject: [PATCH 25/28] fix: take gains configured as integer numbers instead
 of 0.0

---
 src/server_config.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/server_config.c b/src/server_config.c
index fdb037b..5e9f8c3 100644
--- a/src/server_config.c
+++ b/src/server_config.c
@@ -96,6 +96,9 @@ int server_config_create(struct server_config **config, const char *path) {
         server_config_destroy(result);
         return -1;
     }
+    // gain can be configured as an integer number
+    config_set_auto_convert(&libconfig, CONFIG_TRUE);
+
     const config_setting_t *setting = config_lookup(&libconfig, "buffer_size");
     uint32_t buffer_size;
     if (setting == NULL) {
-- 
2.43.0


From 2f3c7c0d5fe417dc4c430607d6bb4516ecc42b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:44:44 +0000
Subject: [PATCH 26/28] fix: do not share an sdr which failed to get its first
 consumer

---
 src/tcp_server.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/tcp_server.c b/src/tcp_server.c
index fc28dda..7104085 100644
--- a/src/tcp_server.c
+++ b/src/tcp_server.c
@@ -717,14 +717,19 @@ void handle_rx_client(int client_socket, struct message_header *header, tcp_serv
             protobuf_c_enum_descriptor_get_value(&modem_type__descriptor, tcp_worker->rx_req->demod_type)->name, tcp_worker->rx_req->rx_center_freq, tcp_worker->rx_req->rx_offset,
             tcp_worker->rx_req->rx_sampling_freq, tcp_worker->rx_req->demod_baud_rate, protobuf_c_enum_descriptor_get_value(&demod_destination__descriptor, tcp_worker->rx_req->demod_destination)->name, tcp_worker->rx_req->doppler != NULL);
     // samples should follow the response
+    sdr_worker *unused_sdr = NULL;
     code = sdr_worker_add_dsp_worker(tcp_worker->dsp, tcp_worker->sdr);
     if (code != 0) {
         fprintf(stderr, "<3>[%d] unable to receive data from sdr\n", tcp_worker->id);
         tcp_worker_detach_sdr(tcp_worker);
-        // client's thread will release everything
+        // nobody else should find the sdr without consumers
+        unused_sdr = tcp_worker->sdr;
+        tcp_worker->sdr = NULL;
+        // client's thread will release everything else
         shutdown(client_socket, SHUT_RDWR);
     }
     pthread_mutex_unlock(&server->mutex);
+    sdr_worker_destroy(unused_sdr);
 }
 
 static void *acceptor_worker(void *arg) {
-- 
2.43.0


From b9bb520da7ee958173ed19baff9b896a7b9f9fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:57 +0000
Subject: [PATCH 27/28] fix: read the current date with gmtime_r, sessions
 share gmtime's result

---
 src/sgpsdp/sgp_time.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sgpsdp/sgp_time.c b/src/sgpsdp/sgp_time.c
index 9795eed..6c6b6a0 100644
--- a/src/sgpsdp/sgp_time.c
+++ b/src/sgpsdp/sgp_time.c
@@ -298,7 +298,7 @@ void UTC_Calendar_Now(struct tm *cdate)
     time_t          t;
 
     t = time(0);
-    *cdate = *gmtime(&t);
+    gmtime_r(&t, cdate);
     cdate->tm_year += 1900;
     cdate->tm_mon += 1;
 
-- 
2.43.0


From 73f9fa6043de5f20066022b137e2c65233ffde41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:03 +0000
Subject: [PATCH 28/28] fix: a stale errno must not make VOLK_ALIGNMENT invalid

---
 src/dsp/fir_filter.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dsp/fir_filter.c b/src/dsp/fir_filter.c
index 256bb47..42dc101 100644
--- a/src/dsp/fir_filter.c
+++ b/src/dsp/fir_filter.c
@@ -50,6 +50,7 @@ int fir_filter_create(uint8_t decimation, float *taps, size_t taps_len,
 
     char *alignment_override = getenv("VOLK_ALIGNMENT");
     if (alignment_override != NULL) {
+        errno = 0;
         result->alignment = strtol(alignment_override, (char **) NULL, 10);
         if (errno == ERANGE || result->alignment == 0) {
             fprintf(stderr, "<3>invalid VOLK_ALIGNMENT specified: %s\n", alignment_override);
-- 
2.43.0

