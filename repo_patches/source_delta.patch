From 539139809caa7ae822c79eddb7fe671998063857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:00 +0000
Subject: [PATCH 01/22] fix: ring buffer copies, compares and reads numbers
 wrongly across the wrap-around point

---
 src/core/http_parse.cpp  | 30 ++-----------------
 src/core/read_buffer.cpp | 62 +++++++++++++++++-----------------------
 src/core/read_buffer.h   |  9 +++++-
 3 files changed, 38 insertions(+), 63 deletions(-)

diff --git a/src/core/http_parse.cpp b/src/core/http_parse.cpp
index c86f097..d66ecdd 100644
--- a/src/core/http_parse.cpp
+++ b/src/core/http_parse.cpp
@@ -27,32 +27,9 @@
 
 
 void skip_over_newlines(struct read_buffer* rb) {
-	char* buffer;
-	int end = rbuf_read_to_end(rb);
-
-	//Nothing to skip
-	if (end == 0) {
-		return;
-	}
-
-	//Iterate over buffer until the end of the buffer
-	buffer = RBUF_READPTR(rb);
-	for (int i = 0; i < end; i++) {
-		if (*buffer != '\r' && *buffer != '\n') {
-			return;
-		}
-#ifdef DEBUG_BUILD
-		rbuf_debug_read_check(rb, 1);
-#endif
-		rb->read_position++;
-		rbuf_debug_check(rb);
-		buffer++;
-	}
-
-	//Go over anything from the start
-	end = rbuf_read_remaining(rb) - end;
-	for (int i = 0; i < end; i++) {
-		if (*buffer != '\r' && *buffer != '\n') {
+	while (rbuf_read_remaining(rb) != 0) {
+		char c = *RBUF_READPTR(rb);
+		if (c != '\r' && c != '\n') {
 			return;
 		}
 #ifdef DEBUG_BUILD
@@ -60,7 +37,6 @@ void skip_over_newlines(struct read_buffer* rb) {
 #endif
 		rb->read_position++;
 		rbuf_debug_check(rb);
-		buffer++;
 	}
 }
 
diff --git a/src/core/read_buffer.cpp b/src/core/read_buffer.cpp
index b381b1e..afca161 100644
--- a/src/core/read_buffer.cpp
+++ b/src/core/read_buffer.cpp
@@ -1,5 +1,6 @@
 #include <assert.h>
 #include <string.h>
+#include <limits.h>
 #include "read_buffer.h"
 #include "debug.h"
 
@@ -13,7 +14,7 @@ int rbuf_copyn(struct read_buffer* buffer, char* dest, int n) {
 	assert(dest != NULL);
 	rbuf_debug_check(buffer);
 	assert(n <= BUFFER_SIZE);
-	int to_end = rbuf_read_to_end(buffer);
+	int to_end = rbuf_read_contiguous(buffer);
 
 	if (n == 0) {
 		//No bytes to be read
@@ -40,7 +41,6 @@ int rbuf_copyn(struct read_buffer* buffer, char* dest, int n) {
 	to_end = rbuf_read_remaining(buffer) - to_end;
 	if (to_end != 0) {
 		//Dont read more than needed
-		assert(to_end <= n);
 		if (to_end > n) {
 			to_end = n;
 		}
@@ -72,13 +72,13 @@ int rbuf_cmpn(struct read_buffer* buffer, const char* with, int n) {
 	}
 
 	//Read the maximum we can / want
-	to_end = rbuf_read_to_end(buffer);
+	to_end = rbuf_read_contiguous(buffer);
 	if (n < to_end) {
 		to_end = n;
 	}
 
 	//Copy this ammount
-	int result = strncmp(with, RBUF_READPTR(buffer), to_end);
+	int result = memcmp(with, RBUF_READPTR(buffer), to_end);
 	n -= to_end;
 
 	//Do we need more?
@@ -87,54 +87,39 @@ int rbuf_cmpn(struct read_buffer* buffer, const char* with, int n) {
 		return result;
 	}
 
-	return strncmp(with + to_end, RBUF_STARTPTR(buffer), n);
-
-	//Shouldnt happen
-	return result;
+	return memcmp(with + to_end, RBUF_STARTPTR(buffer), n);
 }
 
 bool rbuf_strntol(struct read_buffer* buffer, int* output, int max)
 {
 	rbuf_debug_check(buffer);
 	int result = 0;
-	int n = rbuf_read_to_end(buffer);
+	int n = rbuf_read_remaining(buffer);
 	if (max != -1 && max < n) {
 		n = max;
-		max -= n;
 	}
 
-	char* buf = RBUF_READPTR(buffer);
+	//An empty string is not a number
+	if (n == 0) {
+		return false;
+	}
 
-	//Handle forward
-	while (n--)
+	for (int i = 0; i < n; i++)
 	{
-		result *= 10;
-		int number = (*buf++) - '0';
+		char c = buffer->buffer[(buffer->read_position + i) & (BUFFER_SIZE - 1)];
+		int number = c - '0';
 
 		if (number > 9 || number < 0) {
-			DEBUG("Expected number got char %c\n", (unsigned char)(*(buf - 1)));
+			DEBUG("Expected number got char %c\n", (unsigned char)c);
 			return false;
 		}
-		result += number;
-	}
 
-	if (max != 0) {
-		//How many after roll over?
-		n = rbuf_read_remaining(buffer) - n;
-		buf = RBUF_STARTPTR(buffer);
-
-		//Handle rollover
-		while (n--)
-		{
-			result *= 10;
-			int n = (*buf++) - '0';
-
-			if (n > 9 || n < 0) {
-				DEBUG("Expected number got char %c\n", (unsigned char)(*(buf - 1)));
-				return false;
-			}
-			result += n;
+		//Refuse anything that does not fit
+		if (result > (INT_MAX - number) / 10) {
+			DEBUG("Number is too large\n");
+			return false;
 		}
+		result = result * 10 + number;
 	}
 
 	*output = result;
@@ -159,12 +144,19 @@ int rbuf_read_to_end(struct read_buffer* buffer) {
 
 	uint16_t to_end = (buffer->read_position & (BUFFER_SIZE - 1));
 	if (to_end <= (buffer->write_position & (BUFFER_SIZE - 1))) {
-		return buffer->write_position - buffer->read_position;
+		return RBUF_READLENPTR(buffer);
 	}
 	else{
 		return BUFFER_SIZE - to_end;
 	}
 }
+int rbuf_read_contiguous(struct read_buffer* buffer) {
+	rbuf_debug_check(buffer);
+
+	int remaining = RBUF_READLENPTR(buffer);
+	int to_end = BUFFER_SIZE - (buffer->read_position & (BUFFER_SIZE - 1));
+	return remaining < to_end ? remaining : to_end;
+}
 int rbuf_write_remaining(struct read_buffer* buffer) {
 	rbuf_debug_check(buffer);
 	return RBUF_WRITELENPTR(buffer);
diff --git a/src/core/read_buffer.h b/src/core/read_buffer.h
index bf9e09c..0ec88f3 100644
--- a/src/core/read_buffer.h
+++ b/src/core/read_buffer.h
@@ -51,6 +51,13 @@ until the end (highest index)
 */
 int rbuf_read_to_end(struct read_buffer* buffer);
 
+/*
+Get the number of bytes that can be read starting at the read
+pointer without passing the end of the underlying array (also
+when the buffer is full)
+*/
+int rbuf_read_contiguous(struct read_buffer* buffer);
+
 /*
 Get the number of bytes that can be written until maximum
 capacity.
@@ -132,7 +139,7 @@ Move the write offset
 Helper to Iterate over circular buffer
 */
 #define RBUF_ITERATE(rb,n,buffer,end,ret,inner) do { \
-	end = rbuf_read_to_end(&rb); \
+	end = rbuf_read_contiguous(&rb); \
 	n = 0; \
 	if (end != 0) { \
 		buffer = RBUF_READ(rb); \
-- 
2.43.0


From 89c414590dd75a2d9fe1d2a8ef127a78764774b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:18 +0000
Subject: [PATCH 02/22] fix: parser consumes request bytes that have not
 arrived yet and drops bytes of header values

---
 src/core/http_parse_cache.cpp | 34 +++++++++++++++-------------------
 src/core/http_parse_mon.cpp   |  2 +-
 2 files changed, 16 insertions(+), 20 deletions(-)

diff --git a/src/core/http_parse_cache.cpp b/src/core/http_parse_cache.cpp
index 2edf4be..3adb73f 100644
--- a/src/core/http_parse_cache.cpp
+++ b/src/core/http_parse_cache.cpp
@@ -247,7 +247,7 @@ static inline state_action http_read_requeststarturl1(scache_connection* connect
 					//Stats Command
 					DEBUG("[#%d] Request stats\n", connection->client_sock);
 					free(key);
-					RBUF_READMOVE(connection->input, n + 1);
+					RBUF_READMOVE(connection->input, n);
 					return http_stats_after_eol(connection);
 				}
 
@@ -257,7 +257,7 @@ static inline state_action http_read_requeststarturl1(scache_connection* connect
 				connection->cache.target.table.table = db_table_get_read(key, n - 1);
 				connection->cache.target.table.start = 0;
 				connection->cache.target.table.limit = DEFAULT_LISTING_LIMIT;
-				RBUF_READMOVE(connection->input, n + 1);
+				RBUF_READMOVE(connection->input, n);
 
 				//Else request for table/key
 				CONNECTION_HANDLER(connection, http_cache_handle_headers);
@@ -269,7 +269,7 @@ static inline state_action http_read_requeststarturl1(scache_connection* connect
 				DEBUG("[#%d] Request admin url: \"%s\" (%d)\n", connection->client_sock, key, n);
 				if(n == 3 && strncmp(key, "gc", n	) == 0){
 					free(key);
-					RBUF_READMOVE(connection->input, n + 1);
+					RBUF_READMOVE(connection->input, n);
 					
 					//GC
 					db_lru_gc();
@@ -278,7 +278,7 @@ static inline state_action http_read_requeststarturl1(scache_connection* connect
 			}
 			
 			free(key);
-			RBUF_READMOVE(connection->input, n + 1);
+			RBUF_READMOVE(connection->input, n);
 			return http_write_response_after_eol(connection, HTTPTEMPLATE_FULLINVALIDMETHOD);
 		}
 	}
@@ -301,10 +301,8 @@ static state_action http_read_requeststarturl2(scache_connection* connection, ch
 
 static state_action http_read_headers(scache_connection* connection, char* buffer, int n, uint32_t& temporary) {
 	if (*buffer == ':') {
-		int bytes = buffer - RBUF_READ(connection->input);
-		if (bytes < 0) {
-			bytes = rbuf_read_to_end(&connection->input) + (buffer - RBUF_START(connection->input));
-		}
+		//All bytes from the start of the line (the read position) up to here
+		int bytes = n;
 		DEBUG("[#%d] Found header of length %d\n", connection->client_sock, bytes);
 
 		if (REQUEST_IS(connection->method, REQUEST_HTTPPUT | REQUEST_CACHE_LEVELKEY)) {
@@ -428,21 +426,19 @@ static state_action http_read_headers(scache_connection* connection, char* buffe
 }
 
 static state_action http_read_header_extraction(scache_connection* connection, char* buffer, int n) {
-	int temporary = 0;
-	if (*buffer == ' ' && !temporary) {
+	if (*buffer == ' ' && n == 0) {
+		//Skip space before the value
 		RBUF_READMOVE(connection->input, 1);
+		return needs_more_read;
 	}
-	else if (*buffer == '\n' || *buffer == '\r') {
-		//We are going to have to skip another char if \r\n
-		if (*buffer == '\r') {
-			temporary = 2;
-		}
-		else{
-			temporary = 1;
+	else if (*buffer == '\n') {
+		//Everything from the read position up to the end of line (\n or \r\n) is the value
+		int length = n, temporary = 1;
+		if (n != 0 && connection->input.buffer[(connection->input.read_position + n - 1) & (BUFFER_SIZE - 1)] == '\r') {
+			length--;
+			temporary++;
 		}
 
-		int length = buffer - RBUF_READ(connection->input);
-
 		switch (connection->state) {
 		case HEADER_CONTENTLENGTH:
 			if (REQUEST_IS(connection->method, REQUEST_HTTPPUT | REQUEST_CACHE_LEVELKEY)) {
diff --git a/src/core/http_parse_mon.cpp b/src/core/http_parse_mon.cpp
index 759300f..3276ad9 100644
--- a/src/core/http_parse_mon.cpp
+++ b/src/core/http_parse_mon.cpp
@@ -221,7 +221,7 @@ static inline state_action http_mon_read_requeststarturl(scache_connection* conn
 		char* key = (char*)malloc(sizeof(char) * (n + 1));
 		rbuf_copyn(&connection->input, key, n - 1);
 		key[n - 1] = 0;//Null terminate the key
-		RBUF_READMOVE(connection->input, n + 1);
+		RBUF_READMOVE(connection->input, n);
 
 		if(n == 1){ // URL: "/"
 			free(key);
-- 
2.43.0


From 4a26766c795da9ff9933e44fdc5f59132de60a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:20 +0000
Subject: [PATCH 03/22] fix: PUT body handling on write errors and across the
 ring buffer end

---
 src/core/http.h               |  2 ++
 src/core/http_parse_cache.cpp | 18 ++++++++++++++----
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/core/http.h b/src/core/http.h
index 882720c..247d732 100644
--- a/src/core/http.h
+++ b/src/core/http.h
@@ -65,6 +65,7 @@
 #define HTTPTEMPLATE_HEAD_ONLY 15
 #define HTTPTEMPLATE_MON_STREAM 16
 #define HTTPTEMPLATE_FULL404_PATHNOTFOUND 17
+#define HTTPTEMPLATE_FULLSTORAGEERROR 18
 
 #define HTTP_TEMPLATE_STRLEN 128
 static const char http_templates[][HTTP_TEMPLATE_STRLEN] = {
@@ -86,6 +87,7 @@ static const char http_templates[][HTTP_TEMPLATE_STRLEN] = {
 	"HTTP/1.1 200 OK\r\nConnection: Keep-Alive\r\n\r\n",
 	"HTTP/1.1 200 OK\r\nConnection: Close\r\nContent-Type: text/x-streaming\r\nX-Hostname: %s\r\n\r\n",
 	"HTTP/1.1 404 Not Found\r\nConnection: Keep-Alive\r\nContent-Length: 16\r\n\r\nPath Not Found\r\n",
+	"HTTP/1.1 500 Internal Server Error\r\nConnection: Close\r\nContent-Length: 15\r\n\r\nStorage Error\r\n",
 };
 
 #define MON_STREAMING_HEADERS "#state:starting\n#delay:%f\n\n#server:%s\n"
diff --git a/src/core/http_parse_cache.cpp b/src/core/http_parse_cache.cpp
index 3adb73f..decdfe6 100644
--- a/src/core/http_parse_cache.cpp
+++ b/src/core/http_parse_cache.cpp
@@ -667,7 +667,7 @@ state_action http_cache_handle_headers(scache_connection* connection) {
 
 state_action http_cache_handle_request_body(scache_connection* connection) {
 	DEBUG("[#%d] Handling STATE_REQUESTBODY\n", connection->client_sock);
-	int max_write = rbuf_read_to_end(&connection->input);
+	int max_write = rbuf_read_contiguous(&connection->input);
 	assert(max_write >= 0);
 	int to_write = connection->cache.target.key.end_position - connection->cache.target.key.position;
 	assert(to_write >= 0);
@@ -683,9 +683,18 @@ state_action http_cache_handle_request_body(scache_connection* connection) {
 			// Write data
 			if(lseek64(connection->cache.target.key.fd, connection->cache.target.key.position, SEEK_SET) == -1) {
 				PWARN("[#%d] Failed to seek for PUT", connection->client_sock);
-				return http_write_response(connection, HTTPTEMPLATE_FULL404);				
+				return http_write_response(connection, HTTPTEMPLATE_FULLSTORAGEERROR);
+			}
+			int read_bytes;
+			do {
+				read_bytes = write(connection->cache.target.key.fd, RBUF_READ(connection->input), to_write);
+			} while (read_bytes == -1 && errno == EINTR);
+
+			//The value can not be stored, give up on it
+			if (read_bytes < 0) {
+				PWARN("[#%d] Failed to write for PUT", connection->client_sock);
+				return http_write_response(connection, HTTPTEMPLATE_FULLSTORAGEERROR);
 			}
-			int read_bytes = write(connection->cache.target.key.fd, RBUF_READ(connection->input), to_write);
 
 			//Handle the bytes written
 			DEBUG("[#%d] %d bytes to fd %d at position %u\n", connection->client_sock, read_bytes, connection->cache.target.key.fd, connection->cache.target.key.position);
@@ -716,7 +725,8 @@ state_action http_cache_handle_request_body(scache_connection* connection) {
 		return http_write_response(connection, HTTPTEMPLATE_FULL200OK);
 	}
 
-	return continue_processing;
+	//There may be more, after the wrap-around point
+	return needs_more_read;
 }
 
 void cache_destroy(scache_connection* connection){
-- 
2.43.0


From 7526d723eb0e4fead065b7ff4ba47fa1e2e46399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:46 +0000
Subject: [PATCH 04/22] fix: error answers honour their Connection header, HEAD
 errors have no body, malformed request lines are refused

---
 src/core/http_parse.cpp       | 22 ++++++++++++++++++++-
 src/core/http_parse.h         |  2 ++
 src/core/http_parse_cache.cpp | 37 ++++++++++++++++++++++++-----------
 src/core/http_parse_mon.cpp   | 22 ++++++++++++---------
 src/core/http_respond.h       |  3 ++-
 5 files changed, 64 insertions(+), 22 deletions(-)

diff --git a/src/core/http_parse.cpp b/src/core/http_parse.cpp
index d66ecdd..633aecc 100644
--- a/src/core/http_parse.cpp
+++ b/src/core/http_parse.cpp
@@ -41,6 +41,26 @@ void skip_over_newlines(struct read_buffer* rb) {
 }
 
 
+/*
+Does this response announce that the connection will be closed after it?
+*/
+bool http_response_closes(const char* response) {
+	return response != NULL && strstr(response, "Connection: Close") != NULL;
+}
+
+/*
+The number of bytes of a template to send (a response to HEAD has no body)
+*/
+int http_response_length(scache_connection* connection, int http_template) {
+	if (REQUEST_IS(connection->method, REQUEST_HTTPHEAD)) {
+		const char* end = strstr(http_templates[http_template], "\r\n\r\n");
+		if (end != NULL) {
+			return (end - http_templates[http_template]) + 4;
+		}
+	}
+	return http_templates_length[http_template];
+}
+
 state_action http_read_eoltoend(scache_connection* connection, char* buffer, int n, uint32_t& temporary) {
 	uint16_t target = temporary & 0x0000FFFF;
 	uint16_t current = (temporary >> 16);
@@ -57,7 +77,7 @@ state_action http_read_eoltoend(scache_connection* connection, char* buffer, int
 	if (target == current) {
 		// register a handler to write the output (and then the request is over)
 		connection->state = 0;
-		CONNECTION_HANDLER(connection,  http_respond_writeonly);
+		CONNECTION_HANDLER(connection,  http_response_closes(connection->output_buffer) ? http_respond_close_connection : http_respond_writeonly);
 		bool res = connection_register_write(connection);
 
 		if (!res) {
diff --git a/src/core/http_parse.h b/src/core/http_parse.h
index 62147df..879158c 100644
--- a/src/core/http_parse.h
+++ b/src/core/http_parse.h
@@ -21,6 +21,8 @@ state_action http_mon_handle_method(scache_connection* connection);
 state_action http_mon_handle_start(scache_connection* connection);
 
 /* Supporting */
+bool http_response_closes(const char* response);
+int http_response_length(scache_connection* connection, int http_template);
 void skip_over_newlines(struct read_buffer* rb);
 
 /* Monitoring functions */
diff --git a/src/core/http_parse_cache.cpp b/src/core/http_parse_cache.cpp
index decdfe6..d44ef4f 100644
--- a/src/core/http_parse_cache.cpp
+++ b/src/core/http_parse_cache.cpp
@@ -36,15 +36,15 @@ static state_action http_stats_after_eol(scache_connection* connection) {
 static state_action http_write_response_after_eol(scache_connection* connection, int http_template) {
 	CONNECTION_HANDLER(connection, http_handle_eolwritetoend);
 	connection->output_buffer = http_templates[http_template];
-	connection->output_length = http_templates_length[http_template];
+	connection->output_length = http_response_length(connection, http_template);
 	connection->state = 1;
 	return needs_more_read;
 }
 
 static state_action http_write_response(scache_connection* connection, int http_template) {
-	CONNECTION_HANDLER(connection,  http_respond_writeonly);
+	CONNECTION_HANDLER(connection,  http_response_closes(http_templates[http_template]) ? http_respond_close_connection : http_respond_writeonly);
 	connection->output_buffer = http_templates[http_template];
-	connection->output_length = http_templates_length[http_template];
+	connection->output_length = http_response_length(connection, http_template);
 	connection->state = 0;
 	bool res = connection_register_write(connection);
 	return res?registered_write:close_connection;
@@ -53,11 +53,20 @@ static state_action http_write_response(scache_connection* connection, int http_
 static state_action http_headers_response_after_eol(scache_connection* connection, int http_template) {
 	CONNECTION_HANDLER(connection,  http_handle_eolwritetoend);
 	connection->output_buffer = http_templates[http_template];
-	connection->output_length = http_templates_length[http_template];
+	connection->output_length = http_response_length(connection, http_template);
 	connection->state = 2;
 	return needs_more_read;
 }
 
+/*
+The request line can not be parsed: answer once its end has been found.
+*/
+static state_action http_refuse_request_line(scache_connection* connection, int n) {
+	RBUF_READMOVE(connection->input, n);
+	http_write_response_after_eol(connection, HTTPTEMPLATE_FULLUNKNOWNREQUEST);
+	return http_handle_eolwritetoend(connection);
+}
+
 static bool http_key_lookup(scache_connection* connection, int n) {
 	//Key request
 	//Copy the key from the buffer
@@ -90,6 +99,7 @@ static bool http_key_lookup(scache_connection* connection, int n) {
 	else
 	{
 		DEBUG("[#%d] Has request key but is not GET, HEAD, PUT or DELETE (binary: %x)\n", connection->client_sock, connection->method);
+		free(key);
 		return http_write_response_after_eol(connection, HTTPTEMPLATE_FULLINVALIDMETHOD);
 	}
 
@@ -121,7 +131,7 @@ static bool http_key_lookup(scache_connection* connection, int n) {
 static inline state_action http_read_requeststartmethod(scache_connection* connection, char* buffer, int n) {
 	//Check if this is never going to be valid, too long
 	if (n > LONGEST_REQMETHOD) {
-		RBUF_READMOVE(connection->input, n + 1);
+		RBUF_READMOVE(connection->input, n);
 		return http_write_response_after_eol(connection, HTTPTEMPLATE_FULLLONGMETHOD);
 	}
 
@@ -193,8 +203,10 @@ static inline state_action http_read_requeststartmethod(scache_connection* conne
 }
 
 static inline state_action http_read_requeststarturl1(scache_connection* connection, char* buffer, int n) {
-	//Assert: first char is a / (start of URL)
-	assert(n != 0 || *buffer == '/');
+	//First char is a / (start of URL), and the URL ends before the line does
+	if ((n == 0 && *buffer != '/') || *buffer == '\n') {
+		return http_refuse_request_line(connection, n);
+	}
 
 	// search either for / (goto http_read_requeststarturl2) or " " goto next step
 	if (n != 0) {
@@ -219,13 +231,13 @@ static inline state_action http_read_requeststarturl1(scache_connection* connect
 			//URL: table/key
 
 
-			if (REQUEST_IS(connection->method, REQUEST_HTTPGET) || REQUEST_IS(connection->method, REQUEST_HTTPDELETE) || REQUEST_IS(connection->method, REQUEST_HTTPHEAD)) 
+			if (REQUEST_IS(connection->method, REQUEST_HTTPPUT))
 			{
-				connection->cache.target.table.table = db_table_get_read(key, n - 1);
+				connection->cache.target.table.table = db_table_get_write(key, n - 1);
 			}
 			else
 			{
-				connection->cache.target.table.table = db_table_get_write(key, n - 1);
+				connection->cache.target.table.table = db_table_get_read(key, n - 1);
 			}
 
 			if (connection->cache.target.table.table)
@@ -289,12 +301,15 @@ static inline state_action http_read_requeststarturl1(scache_connection* connect
 static state_action http_read_requeststarturl2(scache_connection* connection, char* buffer, int n)
 {
 	if (*buffer == ' ') {
+		connection->state = 0;
 		bool temporary = http_key_lookup(connection, n);
 		RBUF_READMOVE(connection->input, n + 1);
-		connection->state = 0;
 
 		return temporary ? needs_more_read : registered_write;
 	}
+	else if (*buffer == '\n') {
+		return http_refuse_request_line(connection, n);
+	}
 
 	return continue_processing;
 }
diff --git a/src/core/http_parse_mon.cpp b/src/core/http_parse_mon.cpp
index 3276ad9..6f63907 100644
--- a/src/core/http_parse_mon.cpp
+++ b/src/core/http_parse_mon.cpp
@@ -62,15 +62,15 @@ static void enable_keepalive(int sock) {
 static state_action http_write_response_after_eol(scache_connection* connection, int http_template) {
 	CONNECTION_HANDLER(connection, http_handle_eolwritetoend);
 	connection->output_buffer = http_templates[http_template];
-	connection->output_length = http_templates_length[http_template];
-	connection->state = 0;
+	connection->output_length = http_response_length(connection, http_template);
+	connection->state = 1;
 	return needs_more_read;
 }
 
 static state_action http_write_response(scache_connection* connection, int http_template) {
-	CONNECTION_HANDLER(connection,  http_respond_writeonly);
+	CONNECTION_HANDLER(connection,  http_response_closes(http_templates[http_template]) ? http_respond_close_connection : http_respond_writeonly);
 	connection->output_buffer = http_templates[http_template];
-	connection->output_length = http_templates_length[http_template];
+	connection->output_length = http_response_length(connection, http_template);
 	connection->state = 0;
 	bool res = connection_register_write(connection);
 	return res?registered_write:close_connection;
@@ -80,7 +80,7 @@ static state_action http_write_response(scache_connection* connection, int http_
 static state_action http_headers_response_after_eol(scache_connection* connection, int http_template) {
 	CONNECTION_HANDLER(connection,  http_handle_eolwritetoend);
 	connection->output_buffer = http_templates[http_template];
-	connection->output_length = http_templates_length[http_template];
+	connection->output_length = http_response_length(connection, http_template);
 	connection->state = 2;
 	return needs_more_read;
 }
@@ -167,7 +167,7 @@ static state_action http_headers_response_count(scache_connection* connection, i
 static inline state_action http_read_requeststartmethod_mon(scache_connection* connection, char* buffer, int n) {
 	//Check if this is never going to be valid, too long
 	if (n > LONGEST_REQMETHOD) {
-		RBUF_READMOVE(connection->input, n + 1);
+		RBUF_READMOVE(connection->input, n);
 		return http_write_response_after_eol(connection, HTTPTEMPLATE_FULLLONGMETHOD);
 	}
 
@@ -207,8 +207,12 @@ static inline state_action http_read_requeststartmethod_mon(scache_connection* c
 }
 
 static inline state_action http_mon_read_requeststarturl(scache_connection* connection, char* buffer, int n) {
-	//Assert: first char is a / (start of URL)
-	assert(n != 0 || *buffer == '/');
+	//First char is a / (start of URL), and the URL ends before the line does
+	if ((n == 0 && *buffer != '/') || *buffer == '\n') {
+		RBUF_READMOVE(connection->input, n);
+		http_write_response_after_eol(connection, HTTPTEMPLATE_FULLUNKNOWNREQUEST);
+		return http_handle_eolwritetoend(connection);
+	}
 
 	// search either for / (goto http_read_requeststarturl2) or " " goto next step
 	if (n != 0) {
@@ -239,7 +243,7 @@ static inline state_action http_mon_read_requeststarturl(scache_connection* conn
 
 		DEBUG("[#%d] HTTP 404 Not Found for URL \"%s\" of length %d\n", connection->client_sock, key, n);
 		free(key);
-		return http_write_response_after_eol(connection, HTTPTEMPLATE_FULL404_PATHNOTFOUND);
+		return http_headers_response_after_eol(connection, HTTPTEMPLATE_FULL404_PATHNOTFOUND);
 	}
 
 	return continue_processing;
diff --git a/src/core/http_respond.h b/src/core/http_respond.h
index 2896247..2260ee6 100644
--- a/src/core/http_respond.h
+++ b/src/core/http_respond.h
@@ -9,4 +9,5 @@ state_action http_respond_writeonly(scache_connection* connection);
 state_action http_respond_cleanupafterwrite(scache_connection* connection) ;
 state_action http_respond_listing(scache_connection* connection);
 state_action http_respond_listingentries(scache_connection* connection);
-state_action http_respond_stats(scache_connection* connection);
\ No newline at end of file
+state_action http_respond_stats(scache_connection* connection);
+state_action http_respond_close_connection(scache_connection* connection);
\ No newline at end of file
-- 
2.43.0


From c9d9c1c988718436e9023b29c6080217290716bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:46 +0000
Subject: [PATCH 05/22] fix: PUT without, or with repeated, Content-Length uses
 a stale length or leaks the open file

---
 src/core/http_parse_cache.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/core/http_parse_cache.cpp b/src/core/http_parse_cache.cpp
index d44ef4f..1499ad8 100644
--- a/src/core/http_parse_cache.cpp
+++ b/src/core/http_parse_cache.cpp
@@ -115,12 +115,17 @@ static bool http_key_lookup(scache_connection* connection, int n) {
 	assert(!REQUEST_IS(connection->method, REQUEST_CACHE_LEVELTABLE));
 	CONNECTION_HANDLER(connection,  http_cache_handle_httpversion);
 
+	//No Content-Length yet
+	struct db_table* table = connection->cache.target.table.table;
+	connection->cache.target.key.position = 0;
+	connection->cache.target.key.end_position = 0;
+
 	if (entry) {
 		connection->cache.target.key.entry = entry;
 		db_target_setup(&connection->cache.target.key, entry, REQUEST_IS(connection->method, REQUEST_HTTPPUT));
 	}
 	else{
-		db_table_close(connection->cache.target.table.table);
+		db_table_close(table);
 		connection->cache.target.key.entry = NULL;
 		connection->cache.target.key.fd = -1;
 	}
@@ -370,7 +375,7 @@ static state_action http_read_headers(scache_connection* connection, char* buffe
 			// Router: Entry / Key level
 			if (REQUEST_IS(connection->method, REQUEST_CACHE_LEVELKEY)) {
 				if (REQUEST_IS(connection->method, REQUEST_HTTPPUT)) {
-					if (connection->cache.target.key.entry != NULL && connection->cache.target.key.entry->data_length == 0) {
+					if (connection->cache.target.key.end_position == connection->cache.target.key.position) {
 						DEBUG("[#%d] No valid content-length provided for PUT request\n", connection->client_sock);
 						return http_write_response(connection, HTTPTEMPLATE_FULLINVALIDCONTENTLENGTH);
 					}
@@ -466,6 +471,14 @@ static state_action http_read_header_extraction(scache_connection* connection, c
 					return http_write_response(connection, HTTPTEMPLATE_FULLINVALIDMETHOD);
 				}
 
+				if (connection->cache.target.key.end_position != connection->cache.target.key.position) {
+					WARN("Repeated Content-Length provided");
+
+					//This is an INVALID request
+					RBUF_READMOVE(connection->input, length + temporary);
+					return http_write_response(connection, HTTPTEMPLATE_FULLINVALIDCONTENTLENGTH);
+				}
+
 				//Else: We are writing, initalize fd now
 				DEBUG("[#%d] Content-Length of %d found\n", connection->client_sock, content_length);
 
-- 
2.43.0


From b98d18479ccb69706eda1fcbd7562401596623e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:24 +0000
Subject: [PATCH 06/22] fix: pipelined or half-closed requests already received
 are not processed

---
 src/core/connection.cpp   |  7 ++----
 src/core/http.cpp         | 48 +++++++++++++++++++++++----------------
 src/core/http_respond.cpp |  4 ++--
 3 files changed, 32 insertions(+), 27 deletions(-)

diff --git a/src/core/connection.cpp b/src/core/connection.cpp
index b4442a5..b041f9c 100644
--- a/src/core/connection.cpp
+++ b/src/core/connection.cpp
@@ -646,11 +646,8 @@ void connection_event_loop(void (*connection_handler)(scache_connection* connect
 
 					if(!do_close && (events[n].events & EPOLLRDHUP)){
 						connection->epollrdhup = true;
-						if(connection->epollin){
-							do_close = true;
-						}else{
-							assert(connection->epollout);
-						}
+						//The connection is closed once everything sent before the shutdown has been
+						//read (see http_read_handle)
 					}
 
 					if (do_close) {
diff --git a/src/core/http.cpp b/src/core/http.cpp
index d50115a..f2a9695 100644
--- a/src/core/http.cpp
+++ b/src/core/http.cpp
@@ -41,8 +41,9 @@ Handle the connection (Read Event)
 return true to close the connection
 */
 state_action http_read_handle(scache_connection* connection) {
-	int num;
+	int num, space;
 	int fd = connection->client_sock;
+	bool eof = false;
 
 	//Optimization
 	if (connection->input.write_position == connection->input.read_position) {
@@ -50,40 +51,47 @@ state_action http_read_handle(scache_connection* connection) {
 	}
 
 	//Read from socket
-	num = rbuf_write_to_end(&connection->input);
-	if (num > 0) {
-		num = read(fd, RBUF_WRITE(connection->input), num);
+	space = rbuf_write_to_end(&connection->input);
+	if (space > 0) {
+		num = read(fd, RBUF_WRITE(connection->input), space);
 		if (num == 0) {
-			return close_connection;
+			//Nothing more will come, but answer what has been received already
+			eof = true;
 		}
-		if (num < 0) {
+		else if (num < 0) {
 			num = errno;
-			if (num != EAGAIN && num != EWOULDBLOCK) {
+			if (num != EAGAIN && num != EWOULDBLOCK && num != EINTR) {
 				DEBUG("[#%d] A socket error occured while reading: %d\n", fd, num);
 				return close_connection;
 			}
 
 			DEBUG("[#%d] Needs more bytes, got errno %d\n", fd, num);
-			return needs_more_read;
 		}
-		
-		DEBUG("[#%d] Reading %d bytes from socket (write pos: %d, read pos: %d)\n", fd, num, connection->input.write_position, connection->input.read_position);
+		else {
+			DEBUG("[#%d] Reading %d bytes from socket (write pos: %d, read pos: %d)\n", fd, num, connection->input.write_position, connection->input.read_position);
 
-
-		RBUF_WRITEMOVE(connection->input, (uint16_t)num);
+			RBUF_WRITEMOVE(connection->input, (uint16_t)num);
+		}
 	}
 
-	state_action run;
+	//Process what is in the buffer (requests may have been pipelined)
+	state_action run = needs_more_read;
 	int to_end = -1, to_end_old;
-	do {
-		if(!connection->epollin) break;
-		run = http_read_handle_state(connection);
-		to_end_old = to_end;
-		to_end = rbuf_read_remaining(&connection->input);
-	} while (run == needs_more_read && to_end != 0 && to_end != to_end_old);
+	if (rbuf_read_remaining(&connection->input) != 0) {
+		do {
+			if(!connection->epollin) break;
+			run = http_read_handle_state(connection);
+			to_end_old = to_end;
+			to_end = rbuf_read_remaining(&connection->input);
+		} while (run == needs_more_read && to_end != 0 && to_end != to_end_old);
+	}
+
+	if (eof && run != registered_write) {
+		return close_connection;
+	}
 
 	//Handle buffer is full, not being processed
-	if (run != registered_write && run != close_connection && run != close_connection && num == 0 && rbuf_write_remaining(&connection->input) == 0) {
+	if (run != registered_write && run != close_connection && space == 0 && rbuf_write_remaining(&connection->input) == 0) {
 		WARN("Buffer overflowed while handling %s which returned %s (epollin=%d), will disconnect", connection->handler_name, state_action_string[run], connection->epollin);
 		return close_connection;
 	}
diff --git a/src/core/http_respond.cpp b/src/core/http_respond.cpp
index bd99f9b..77752f5 100644
--- a/src/core/http_respond.cpp
+++ b/src/core/http_respond.cpp
@@ -63,8 +63,8 @@ bool http_register_read(scache_connection* connection) {
 
 	bool res = connection_register_read(connection);
 
-	if (!connection_stop_soon() && rbuf_write_remaining(&connection->input)) {
-		http_read_handle(connection);
+	if (!connection_stop_soon() && http_read_handle(connection) == close_connection) {
+		return false;
 	}
 
 	return res;
-- 
2.43.0


From e44ddcee138328a6c6d2c6e63cbfcc948a3de16d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:24 +0000
Subject: [PATCH 07/22] fix: partial and not-ready socket writes repeat or lose
 response bytes

---
 src/core/http.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/core/http.cpp b/src/core/http.cpp
index f2a9695..5db5957 100644
--- a/src/core/http.cpp
+++ b/src/core/http.cpp
@@ -118,9 +118,13 @@ state_action http_write_handle(scache_connection* connection) {
 		//Send data
 		int num = write(connection->client_sock, connection->output_buffer, connection->output_length);
 		if (num < 0) {
-			//TODO: handle error
+			//Not ready, try again on the next event
+			if (errno == EAGAIN || errno == EWOULDBLOCK || errno == EINTR) {
+				return continue_processing;
+			}
 			return close_connection;
 		}
+		connection->output_buffer += num;
 		connection->output_length -= num;
 
 		//Check if done
-- 
2.43.0


From b85d78f91ddf8b35698c4ebb8ebad35756fd9c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:27 +0000
Subject: [PATCH 08/22] fix: listing reads slots outside the table, omits slot
 0 and sends freed keys

---
 src/core/connection_structures.h |  1 +
 src/core/http_parse_cache.cpp    |  3 +-
 src/core/http_respond.cpp        | 54 ++++++++++++--------------------
 3 files changed, 22 insertions(+), 36 deletions(-)

diff --git a/src/core/connection_structures.h b/src/core/connection_structures.h
index 9cf38c6..c394984 100644
--- a/src/core/connection_structures.h
+++ b/src/core/connection_structures.h
@@ -15,6 +15,7 @@ struct table_target {
 	struct db_table* table;
 	uint32_t start;
 	uint32_t limit;
+	uint32_t position; // slots of the table still to be listed
 };
 
 union utarget {
diff --git a/src/core/http_parse_cache.cpp b/src/core/http_parse_cache.cpp
index 1499ad8..3002fcc 100644
--- a/src/core/http_parse_cache.cpp
+++ b/src/core/http_parse_cache.cpp
@@ -273,6 +273,7 @@ static inline state_action http_read_requeststarturl1(scache_connection* connect
 				DEBUG("[#%d] Request table: \"%s\" (%d)\n", connection->client_sock, key, n);
 				connection->cache.target.table.table = db_table_get_read(key, n - 1);
 				connection->cache.target.table.start = 0;
+				connection->cache.target.table.position = UINT32_MAX;
 				connection->cache.target.table.limit = DEFAULT_LISTING_LIMIT;
 				RBUF_READMOVE(connection->input, n);
 
@@ -407,8 +408,6 @@ static state_action http_read_headers(scache_connection* connection, char* buffe
 			
 			//Router: Table level
 			if (REQUEST_IS(connection->method, REQUEST_HTTPGET)) {
-				assert(connection->input.read_position == connection->input.write_position);
-
 				if (!connection->cache.target.table.table) {
 					return http_write_response(connection, HTTPTEMPLATE_FULL404);
 				}
diff --git a/src/core/http_respond.cpp b/src/core/http_respond.cpp
index 77752f5..403a0f4 100644
--- a/src/core/http_respond.cpp
+++ b/src/core/http_respond.cpp
@@ -207,45 +207,31 @@ state_action http_respond_close_connection(scache_connection* connection) {
 state_action http_respond_listing(scache_connection* connection) {
 	DEBUG("[#%d] Sending listing response\n", connection->client_sock);
 
-	if (connection->cache.target.table.start > kh_end(connection->cache.target.table.table->cache_hash_set)) {
-		connection->cache.target.table.start = kh_end(connection->cache.target.table.table->cache_hash_set);
-		connection->cache.target.table.limit = 0;
-	}else if ((connection->cache.target.table.limit + connection->cache.target.table.start) > kh_end(connection->cache.target.table.table->cache_hash_set)) {
-		connection->cache.target.table.limit = kh_end(connection->cache.target.table.table->cache_hash_set) - (connection->cache.target.table.start + 1);
-	}
+	struct table_target* target = &connection->cache.target.table;
+	khash_t(entry)* entries = target->table->cache_hash_set;
 
-	if (connection->cache.target.table.limit > 0) {
-		cache_entry* entry = NULL;
-		int i = connection->cache.target.table.limit + connection->cache.target.table.start;
-		while (!kh_exist(connection->cache.target.table.table->cache_hash_set, i)) {
-			if (connection->cache.target.table.limit == 0) {
-				return close_connection;
-			}
-			connection->cache.target.table.limit--;
-			i--;
-		}
-		entry = kh_val(connection->cache.target.table.table->cache_hash_set, i);
+	//The previous key has been sent
+	target->position = target->position > kh_end(entries) ? kh_end(entries) : target->position;
 
-		bool cleanup = false;
-		if (connection->cache.target.table.limit) {
-			connection->cache.target.table.limit--;
-		}
-		else{
-			cleanup = true;
+	//From the last slot to the first
+	while (target->limit > 0 && target->position > 0) {
+		target->position--;
+		if (!kh_exist(entries, target->position)) {
+			continue;
 		}
 
-		if (entry != NULL) {
-			//Returns the number of chars put into the buffer
-			connection->output_buffer = entry->key;
-			connection->output_length = entry->key_length;
-			CONNECTION_HANDLER(connection,  http_respond_listing_separator);
-
-			if (cleanup) {
-				CONNECTION_HANDLER(connection,  http_respond_close_connection);
-			}
-
-			return continue_processing;
+		//Skip the keys before the requested offset
+		if (target->start > 0) {
+			target->start--;
+			continue;
 		}
+		target->limit--;
+
+		//The entry may be deleted before its key has been sent
+		cache_entry* entry = kh_val(entries, target->position);
+		copy_to_outputbuffer(connection, entry->key, entry->key_length);
+		CONNECTION_HANDLER(connection,  http_respond_listing_separator);
+		return continue_processing;
 	}
 
 	return close_connection;
-- 
2.43.0


From d6c9fd723659cdec22a1317cfa8c10e304864b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:24 +0000
Subject: [PATCH 09/22] fix: table and entry references leak, dangle or are
 released twice when tables empty or are deleted in use

---
 src/core/db.cpp               | 102 ++++++++++++++++++----------------
 src/core/http_parse_cache.cpp |  17 +++---
 2 files changed, 64 insertions(+), 55 deletions(-)

diff --git a/src/core/db.cpp b/src/core/db.cpp
index 3a01b23..ba5250c 100644
--- a/src/core/db.cpp
+++ b/src/core/db.cpp
@@ -259,24 +259,27 @@ void db_entry_actually_delete(cache_entry* entry) {
 void db_table_actually_delete(db_table* entry) {
 	DEBUG("[#] Cleaning up table due to refcount == 0\n");
 
-	//Remove table from database
+	//Remove table from database (if it has not been already, a new one of this name may exist)
 	khiter_t k = kh_get(table, db.tables, entry->hash);
-	if (k != kh_end(db.tables)) {
+	if (k != kh_end(db.tables) && kh_val(db.tables, k) == entry) {
 		kh_del(table, db.tables, k);
 	}
 
+	//Free key hash table
+	kh_destroy(entry, entry->cache_hash_set);
+
 	//Free key
 	free(entry->key);
 	free(entry);
 }
 
-static void db_table_deref(db_table* entry, bool actually_delete = false) {
+static void db_table_deref(db_table* entry) {
 	DEBUG("[#] Decrementing table refcount - was: %d\n", entry->refs);
 	assert(entry->refs > 0);
 	entry->refs--;
 	 
-	//Actually clean up the entry
-	if (entry->refs == 0 && (actually_delete || entry->deleted)) {
+	//Actually clean up the entry, it has neither keys nor users
+	if (entry->refs == 0) {
 		//Remove table from hash set
 		db_table_actually_delete(entry);
 	}
@@ -358,22 +361,21 @@ static int db_expire_cursor_table(db_table* table) {
 			ret++;
 			cache_entry* l = kh_value(table->cache_hash_set, ke);
 			if (!l->deleted && l->expires != 0 && l->expires < current_time.tv_sec) {
-				bool end_early = kh_size(table->cache_hash_set) == 1;
-				bool table_deleted = false;
+				bool table_empty;
 
 				if (l->refs == 0)
 				{
 					db_entry_incref(l);
-					table_deleted = db_entry_handle_delete(l);
+					table_empty = db_entry_handle_delete(l);
 					db_entry_deref(l);
 				}
 				else
 				{
-					table_deleted = db_entry_handle_delete(l);
-					end_early = false;
+					table_empty = db_entry_handle_delete(l);
 				}
 
-				if (end_early || table_deleted) {
+				//The table may be gone
+				if (table_empty) {
 					break;
 				}
 			}
@@ -641,7 +643,7 @@ static bool db_load_from_save(){
 					continue;
 				}
 				if(table != NULL){
-					db_table_deref(table, true);
+					db_table_deref(table);
 					table = NULL;
 				}
 				table = db_table_get_write(strdup(buffer2), strlen(buffer2));
@@ -694,7 +696,7 @@ static bool db_load_from_save(){
 	}
 
 	if(table != NULL){
-		db_table_deref(table, true);
+		db_table_deref(table);
 		table = NULL;
 	}
 
@@ -1033,7 +1035,7 @@ void db_entry_handle_softdelete(cache_entry* entry, khiter_t k) {
 	kh_del(entry, entry->table->cache_hash_set, k);
 
 	//Counters
-	assert(((int)db.db_size_bytes) - entry->data_length >= 0);
+	assert(db.db_size_bytes >= entry->data_length);
 	db.db_size_bytes -= entry->data_length;
 
 	//Remove from LRU, but only if not writing (as not, yet added)
@@ -1062,6 +1064,12 @@ cache_entry* db_entry_get_write(struct db_table* table, char* key, size_t length
 	db.db_stats_inserts++;
 	db.db_stats_operations++;
 
+	//The table has been deleted since the request was started, then it will be mocked
+	if (table->deleted) {
+		free(key);
+		return NULL;
+	}
+
 	//Must be checked before softdelete removes an entry being replaced
 	bool is_first_in_table = kh_size(table->cache_hash_set) == 0;
 
@@ -1071,6 +1079,7 @@ cache_entry* db_entry_get_write(struct db_table* table, char* key, size_t length
 		assert(entry->hash == hash);
 		//If we are currently writing, then it will be mocked
 		if (entry->writing == true) {
+			free(key);
 			return NULL;
 		}
 
@@ -1197,38 +1206,33 @@ bool db_entry_handle_delete(cache_entry* entry) {
 	return db_entry_handle_delete(entry, k);
 }
 
-void db_delete_table_entry(db_table* table, khiter_t k, bool actually_delete = true) {
-	// Clear key hash table
-	kh_destroy(entry, table->cache_hash_set);
-
-	// If not fully de-refed remove now, not later
-	if (table->refs != 0) {
-		assert(k != kh_end(db.tables));
-		kh_del(table, db.tables, k);
-	}
-
-	//Remove reference holding table open
-	db_table_deref(table, actually_delete);
-}
-
-
 void db_table_handle_delete(db_table* table, khiter_t k) {
 	//Set deleted
 	assert(!table->deleted);
 	table->deleted = true;
 
+	bool had_keys = kh_size(table->cache_hash_set) != 0;
+
 	//Delete keys from table
 	for (khiter_t ke = kh_begin(table->cache_hash_set); ke != kh_end(table->cache_hash_set); ++ke) {
 		if (kh_exist(table->cache_hash_set, ke)) {
 			cache_entry* ce = kh_val(table->cache_hash_set, ke);
-			if (!ce->deleted) {
-				db_entry_handle_softdelete(ce, ke);
-				db_entry_cleanup(ce);
-			}
+			assert(!ce->deleted);
+			assert(db.db_keys != 0);
+			db.db_keys--;
+			db_entry_handle_softdelete(ce, ke);
 		}
 	}
-	
-	db_delete_table_entry(table, k);
+
+	//A new table of this name can be created from now on
+	if (k != kh_end(db.tables) && kh_val(db.tables, k) == table) {
+		kh_del(table, db.tables, k);
+	}
+
+	//Remove reference the keys were holding
+	if (had_keys) {
+		db_table_deref(table);
+	}
 }
 
 
@@ -1239,12 +1243,15 @@ void db_table_handle_delete(db_table* table) {
 }
 
 bool db_entry_handle_delete(cache_entry* entry, khiter_t k) {
-	assert(!entry->deleted);
+	//It is possible for another request to have deleted or replaced it
+	if (entry->deleted) return false;
+
+	assert(k != kh_end(entry->table->cache_hash_set) && kh_val(entry->table->cache_hash_set, k) == entry);
 
 	db_entry_cleanup(entry);
 
 	//Counters
-	assert(((int)db.db_size_bytes) - entry->data_length >= 0);
+	assert(db.db_size_bytes >= entry->data_length);
 	db.db_size_bytes -= entry->data_length;
 	assert(db.db_keys != 0);
 	db.db_keys--;
@@ -1263,14 +1270,9 @@ bool db_entry_handle_delete(cache_entry* entry, khiter_t k) {
 	//Assertion check
 	assert(entry->refs != 0);
 
-	//If table entry, cleanup table
+	//If last entry, remove the reference the keys were holding (table is released with its last user)
 	if (kh_size(entry->table->cache_hash_set) == 0) {
-		assert(!entry->table->deleted);
-		entry->table->deleted = true;
-		k = kh_get(table, db.tables, entry->table->hash);
-		assert (k != kh_end(db.tables));
-		db_delete_table_entry(entry->table, k, true);
-		entry->table = NULL;
+		db_table_deref(entry->table);
 		return true;
 	}
 	return false;
@@ -1314,12 +1316,11 @@ void db_target_write_allocate(struct cache_target* target, uint32_t data_length)
 	//Update database counters
 	if (entry->block == -2)
 	{
-		db.db_size_bytes += data_length;
 		entry->block = -1; // must be file
 	}
-	else
-	{
-		db.db_size_bytes += data_length - entry->data_length;
+	if (!entry->deleted) {
+		db.db_size_bytes += data_length;
+		db.db_size_bytes -= entry->data_length;
 	}
 	
 	entry->data_length = data_length;
@@ -1331,6 +1332,11 @@ void db_target_write_allocate(struct cache_target* target, uint32_t data_length)
 		if (ftruncate(target->fd, data_length)<0) {
 			PWARN("File truncation failed (fd: %d, length: %d)", target->fd, data_length);
 		}
+
+		//Deleted while being written, nobody will read it
+		if (entry->deleted && target->fd >= 0) {
+			db_entry_delete(entry);
+		}
 	}
 }
 
diff --git a/src/core/http_parse_cache.cpp b/src/core/http_parse_cache.cpp
index 3002fcc..87e3680 100644
--- a/src/core/http_parse_cache.cpp
+++ b/src/core/http_parse_cache.cpp
@@ -395,6 +395,10 @@ static state_action http_read_headers(scache_connection* connection, char* buffe
 						return res ? registered_write : close_connection;
 					}
 					if (REQUEST_IS(connection->method, REQUEST_HTTPDELETE)) {
+						if (connection->cache.target.key.entry->deleted) {
+							//Another request was quicker
+							return http_write_response(connection, HTTPTEMPLATE_FULL404);
+						}
 						db_entry_handle_delete(connection->cache.target.key.entry);
 
 						return http_write_response(connection, HTTPTEMPLATE_FULLHTTP200DELETED);
@@ -407,8 +411,10 @@ static state_action http_read_headers(scache_connection* connection, char* buffe
 			}
 			
 			//Router: Table level
+			db_table* table = connection->cache.target.table.table;
+			bool table_exists = table && !table->deleted && kh_size(table->cache_hash_set) != 0;
 			if (REQUEST_IS(connection->method, REQUEST_HTTPGET)) {
-				if (!connection->cache.target.table.table) {
+				if (!table_exists) {
 					return http_write_response(connection, HTTPTEMPLATE_FULL404);
 				}
 				connection->output_buffer = http_templates[HTTPTEMPLATE_HEADERS200_CONCLOSE];
@@ -419,10 +425,10 @@ static state_action http_read_headers(scache_connection* connection, char* buffe
 				
 			}
 			if (REQUEST_IS(connection->method, REQUEST_HTTPDELETE)) {
-				if (!connection->cache.target.table.table) {
+				if (!table_exists) {
 					return http_write_response(connection, HTTPTEMPLATE_FULL404);
 				}
-				db_table_handle_delete(connection->cache.target.table.table);
+				db_table_handle_delete(table);
 				return http_write_response(connection, HTTPTEMPLATE_FULLHTTP200DELETED);
 			}
 			if (REQUEST_IS(connection->method, REQUEST_HTTPPURGE)) {
@@ -569,10 +575,7 @@ static state_action http_read_header_extraction(scache_connection* connection, c
 				rbuf_copyn(&connection->input, key, length);
 				cache_entry* entry = db_entry_get_delete(connection->cache.target.table.table, key, length);
 				if (entry != NULL) {
-					if (db_entry_handle_delete(entry))
-					{
-						connection->cache.target.table.table = NULL;
-					}
+					db_entry_handle_delete(entry);
 					db_entry_deref(entry, false);
 				}
 			}
-- 
2.43.0


From cbeb1906a44a0af5c1340c7d67475ab083ef4a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:52 +0000
Subject: [PATCH 10/22] fix: tables with colliding names are lost when one of
 them is removed, names compare past NUL

---
 src/core/db.cpp | 131 ++++++++++++++++++++++++------------------------
 1 file changed, 66 insertions(+), 65 deletions(-)

diff --git a/src/core/db.cpp b/src/core/db.cpp
index ba5250c..6f6511f 100644
--- a/src/core/db.cpp
+++ b/src/core/db.cpp
@@ -73,6 +73,9 @@ static pid_t db_index_flush(bool copyOnWrite = true);
 static char filename_buffer[MAX_PATH];
 static uint16_t nextit = 0;
 
+//Longest distance of a table from the slot of its own hash
+static uint32_t table_probe_max = 0;
+
 db_details* db_get_details() {
 	return &db;
 }
@@ -531,7 +534,9 @@ static uint32_t hash_string(const char* str, int length) {
 }
 
 static void get_key_path(cache_entry* e, char* out) {
-	snprintf(out, MAX_PATH, "%s%c%c/%x%x_%d", db.path_single, DEC2ALPH(e->hash), DEC2ALPH(e->hash >> 8), e->table->hash, e->hash, e->it);
+	//The slot of the table can differ after a restart, the hash of its name does not
+	uint32_t table_hash = hash_string(e->table->key, e->table->key_length);
+	snprintf(out, MAX_PATH, "%s%c%c/%x%x_%d", db.path_single, DEC2ALPH(e->hash), DEC2ALPH(e->hash >> 8), table_hash, e->hash, e->it);
 }
 
 
@@ -895,14 +900,14 @@ cache_entry* db_entry_get_read(struct db_table* table, char* key, size_t length)
 
 	assert(!entry->deleted);
 
-	if (entry->key_length != length || strncmp(key, entry->key, length) != 0) {
+	if (entry->key_length != length || memcmp(key, entry->key, length) != 0) {
 		DEBUG("[#] Unable to look up key: ");
 
 		if (entry->key_length != length) {
 			DEBUG("DB Key length does not match\n");
 		}
 		else{
-			if (strncmp(key, entry->key, length) != 0) {
+			if (memcmp(key, entry->key, length) != 0) {
 				DEBUG("String Keys dont match\n");
 			}
 		}
@@ -934,38 +939,49 @@ cache_entry* db_entry_get_read(struct db_table* table, char* key, size_t length)
 }
 
 /**
-Get table entry, if it does not exist return NULL. Will free name parameter
+Find a table by name, if it does not exist returns NULL and the first slot it could be stored in.
+
+Open addressing for table hash collision. Tables are removed without moving the others, hence
+a table can be stored anywhere up to the longest distance ever used from its own hash.
 */
-struct db_table* db_table_get_read(char* name, int length) {
+static db_table* db_table_find(const char* name, int length, uint32_t* free_hash) {
 	uint32_t hash = hash_string(name, length);
-	khiter_t k;
-	db_table* table;
-	bool while_condition;
+	bool found_free = false;
 
-	//Open addressing for table hash collision
-	do
-	{
-		k = kh_get(table, db.tables, hash);
+	for (uint32_t distance = 0; distance <= table_probe_max || !found_free; distance++) {
+		khiter_t k = kh_get(table, db.tables, hash + distance);
 		if (k == kh_end(db.tables)) {
-			table = NULL;
-			goto end;
+			if (!found_free) {
+				found_free = true;
+				*free_hash = hash + distance;
+			}
+			continue;
 		}
 
-		table = kh_value(db.tables, k);
+		db_table* table = kh_value(db.tables, k);
 		assert(table != NULL);
-		assert(table->hash == hash);
-		
+		assert(table->hash == hash + distance);
+
 		//Check table key, cache key collision handling
-		while_condition = table->key_length != length || strncmp(table->key, name, length) != 0;
-		if (while_condition)
-		{
-			hash++;
+		if (table->key_length == length && memcmp(table->key, name, length) == 0) {
+			return table;
 		}
-	} while (while_condition);
+	}
+
+	return NULL;
+}
 
-	db_table_incref(table);
+/**
+Get table entry, if it does not exist return NULL. Will free name parameter
+*/
+struct db_table* db_table_get_read(char* name, int length) {
+	uint32_t free_hash;
+	db_table* table = db_table_find(name, length, &free_hash);
+
+	if (table != NULL) {
+		db_table_incref(table);
+	}
 
-end:
 	free(name);
 	return table;
 }
@@ -974,50 +990,35 @@ end:
 Get Database table, if it does not exist - create.
 
 This function will assume responsibility for freeing name if a table is found, else it will be used.
-
-Returns NULL in case of cache collision
 */
 struct db_table* db_table_get_write(char* name, int length) {
-	uint32_t hash = hash_string(name, length);
-	khiter_t k;
-	db_table* table;
+	uint32_t free_hash;
 	int ret;
-	bool while_condition;
-	
-	//Open addressing for table hash collision
-	do
-	{
-		k = kh_get(table, db.tables, hash);
-		//Create table if not exists
-		if (k == kh_end(db.tables)) {
-			table = (db_table*)malloc(sizeof(db_table));
-			table->hash = hash;
-			table->key = name;
-			table->key_length = length;
-			table->refs = 1;
-			table->deleted = false;
-			table->cache_hash_set = kh_init(entry);
-
-			k = kh_put(table, db.tables, hash, &ret);
-			kh_value(db.tables, k) = table;
-			return table;
-		}
+	db_table* table = db_table_find(name, length, &free_hash);
 
-		table = kh_value(db.tables, k);
-		assert(table != NULL);
-		assert(table->hash == hash);
-	
-		//Check table key, cache key collision handling
-		while_condition = table->key_length != length || strncmp(table->key, name, length) != 0;
-		if (while_condition)
-		{
-			hash++;
-		}
-	} while (while_condition);
+	if (table != NULL) {
+		free(name);
+		db_table_incref(table);
+		return table;
+	}
+
+	//Create table if not exists
+	table = (db_table*)malloc(sizeof(db_table));
+	table->hash = free_hash;
+	table->key = name;
+	table->key_length = length;
+	table->refs = 1;
+	table->deleted = false;
+	table->cache_hash_set = kh_init(entry);
+
+	uint32_t distance = free_hash - hash_string(name, length);
+	if (distance > table_probe_max) {
+		table_probe_max = distance;
+	}
+
+	khiter_t k = kh_put(table, db.tables, free_hash, &ret);
+	kh_value(db.tables, k) = table;
 
-	free(name);
-	db_table_incref(table);
-	
 	return table;
 }
 
@@ -1134,7 +1135,7 @@ cache_entry* db_entry_get_delete(struct db_table* table, char* key, size_t lengt
 	khiter_t k = kh_get(entry, table->cache_hash_set, hash);
 	cache_entry* entry = k == kh_end(table->cache_hash_set) ? NULL : kh_value(table->cache_hash_set, k);
 
-	if (entry == NULL || entry->key_length != length || strncmp(key, entry->key, length) != 0) {
+	if (entry == NULL || entry->key_length != length || memcmp(key, entry->key, length) != 0) {
 		DEBUG("[#] Unable to look up key: ");
 
 		if (entry == NULL) {
@@ -1145,7 +1146,7 @@ cache_entry* db_entry_get_delete(struct db_table* table, char* key, size_t lengt
 				DEBUG("DB Key length does not match\n");
 			}
 			else{
-				if (strncmp(key, entry->key, length)) {
+				if (memcmp(key, entry->key, length)) {
 					DEBUG("String Keys dont match\n");
 				}
 			}
-- 
2.43.0


From 5e75952d660fa354dea827230ecfea93f5f53556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:53 +0000
Subject: [PATCH 11/22] fix: block file and eviction arithmetic overflow for
 databases over 2 and 4 GiB, odd sized block files

---
 src/core/db.cpp | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/core/db.cpp b/src/core/db.cpp
index 6f6511f..9361481 100644
--- a/src/core/db.cpp
+++ b/src/core/db.cpp
@@ -22,6 +22,7 @@ LRU
         Head <-----------------------------------------> Tail
 */
 #include <stdio.h>
+#include <inttypes.h>
 #include <dirent.h>
 #include <string.h>
 #include <sys/stat.h>
@@ -186,7 +187,7 @@ void db_lru_hit(cache_entry* entry) {
 }
 
 static void db_block_size() {
-	if (ftruncate(db.fd_blockfile, db.blocks_exist*BLOCK_LENGTH) < 0) {
+	if (ftruncate(db.fd_blockfile, (off64_t)db.blocks_exist * BLOCK_LENGTH) < 0) {
 		PWARN("File truncation failed (length: %d)", db.blocks_exist);
 	}
 }
@@ -315,8 +316,10 @@ void db_entry_incref(cache_entry* entry, bool table = true) {
 		db_table_incref(entry->table);
 }
 
-void db_lru_cleanup_percent(int* bytes_to_remove) {
-	int debug_bytes = *bytes_to_remove;
+void db_lru_cleanup_percent(int64_t* bytes_to_remove) {
+#ifdef DEBUG_BUILD
+	int64_t debug_bytes = *bytes_to_remove;
+#endif
 	while (db.lru_head != NULL && *bytes_to_remove > 0) {
 		cache_entry* l = db.lru_head;
 
@@ -337,7 +340,7 @@ void db_lru_cleanup_percent(int* bytes_to_remove) {
 		}
 	}
 	
-	DEBUG("[#] LRU attempted to remove %d bytes, %d bytes remaining\n", debug_bytes, *bytes_to_remove);
+	DEBUG("[#] LRU attempted to remove %" PRId64 " bytes, %" PRId64 " bytes remaining\n", debug_bytes, *bytes_to_remove);
 }
 
 static void force_link(const char* fileThatExists, const char* fileThatDoesNotExist){
@@ -448,20 +451,19 @@ void db_lru_gc() {
 	DEBUG("Starting %s\n", do_lru?"LRU GC":"Expiration Cursor");
 	if (do_lru)
 	{
-		int bytes_to_remove;
+		int64_t bytes_to_remove;
 		bool full_cycle;
 		int i = 0;
 		
 		//Do 5 iterations, or one full cycle of expirations
 		do
 		{
-			bytes_to_remove = (db.db_size_bytes - settings.max_size) + (settings.max_size * settings.db_lru_clear);
 			full_cycle = db_expire_cursor();
 			i++;
 		} while (!full_cycle && i < 5);
 		
 		//Apply LRU
-		bytes_to_remove = (db.db_size_bytes - settings.max_size) + (settings.max_size * settings.db_lru_clear);
+		bytes_to_remove = (int64_t)db.db_size_bytes - (int64_t)settings.max_size + (int64_t)(settings.max_size * (double)settings.db_lru_clear);
 		if (bytes_to_remove > 0) {
 			db_lru_cleanup_percent(&bytes_to_remove);
 		}
@@ -776,7 +778,8 @@ bool db_open(const char* path) {
 		if((size % BLOCK_LENGTH) != 0){
 			WARN("Block file was strange size of %d", size);
 			
-			if(ftruncate(db.fd_blockfile, (size / BLOCK_LENGTH) * BLOCK_LENGTH) == -1){
+			size = (size / BLOCK_LENGTH) * BLOCK_LENGTH;
+			if(ftruncate(db.fd_blockfile, size) == -1){
 				PFATAL("Failed to truncate blockfile %s", db.path_blockfile);
 			}
 		}
-- 
2.43.0


From 4a0905d3f68ad9882f1f9c8d8c7dfb50fcdef18b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:55 +0000
Subject: [PATCH 12/22] fix: index save and load lose names, leak blocks, pair
 an index with another block file and reuse listed file names

---
 src/core/db.cpp | 147 ++++++++++++++++++++++++++++--------------------
 1 file changed, 87 insertions(+), 60 deletions(-)

diff --git a/src/core/db.cpp b/src/core/db.cpp
index 9361481..caa8d1a 100644
--- a/src/core/db.cpp
+++ b/src/core/db.cpp
@@ -32,6 +32,7 @@ LRU
 #include <sys/wait.h>
 #include <unistd.h>
 #include <assert.h>
+#include <errno.h>
 #include "db.h"
 #include "debug.h"
 #include "hash.h"
@@ -192,18 +193,24 @@ static void db_block_size() {
 	}
 }
 
+static void db_block_free_node(uint32_t block) {
+	block_free_node* old = db.free_blocks;
+	db.free_blocks = (block_free_node*)malloc(sizeof(block_free_node));
+	db.free_blocks->block_number = block;
+	db.free_blocks->next = old;
+	db.blocks_free++;
+}
+
 void db_block_free(int32_t block) {
 #ifdef DEBUG_BUILD
 	std::set<uint32_t> block_check;
 #endif
 	assert(block >= 0);
-	block_free_node* old;
 	assert((uint32_t)block + 1 <= db.blocks_exist);
 	if ((uint32_t)block + 1 == db.blocks_exist && db.blocks_free > 256) {
 		db.blocks_exist--;
 		db_block_size();
 	}else{
-		old = db.free_blocks;
 #ifdef DEBUG_BUILD
 		// Check only freed once
 		block_free_node* ptr = db.free_blocks;
@@ -212,10 +219,7 @@ void db_block_free(int32_t block) {
 			ptr = ptr->next;
 		}
 #endif
-		db.free_blocks = (block_free_node*)malloc(sizeof(block_free_node));
-		db.free_blocks->block_number = block;
-		db.free_blocks->next = old;
-		db.blocks_free++;
+		db_block_free_node(block);
 	}
 }
 
@@ -343,7 +347,7 @@ void db_lru_cleanup_percent(int64_t* bytes_to_remove) {
 	DEBUG("[#] LRU attempted to remove %" PRId64 " bytes, %" PRId64 " bytes remaining\n", debug_bytes, *bytes_to_remove);
 }
 
-static void force_link(const char* fileThatExists, const char* fileThatDoesNotExist){
+static bool force_link(const char* fileThatExists, const char* fileThatDoesNotExist){
 	char buffer[8096];
 	//TODO: reflink
 	/*int ret = link(fileThatExists, fileThatDoesNotExist);
@@ -353,7 +357,7 @@ static void force_link(const char* fileThatExists, const char* fileThatDoesNotEx
 		//Really bad! Temporary.
 		snprintf(buffer, sizeof(buffer), "cp %s %s", fileThatExists, fileThatDoesNotExist);
 		printf("Executing %s\n", buffer);
-		system(buffer);
+		return system(buffer) == 0;
 	//}
 }
 
@@ -426,17 +430,16 @@ bool db_expire_cursor() {
 static bool currently_flushing(int flags){
 	if(current_flush == 0) return false;
 	int status, w;
-	w = waitpid(current_flush, &status, flags);
-	if (w) {
-		if (WIFEXITED(status)) {
-			current_flush = 0;
-			return false;
-		}
-	} else if(w == -1) {
-		current_flush = 0;
-		return false;
-	}
-	return true;
+	do {
+		w = waitpid(current_flush, &status, flags);
+	} while (w == -1 && errno == EINTR);
+
+	// Still running
+	if (w == 0) return true;
+
+	// Done (exited, killed or already waited for)
+	current_flush = 0;
+	return false;
 }
 
 void db_handle_sigchld(pid_t pid){
@@ -577,9 +580,6 @@ static void db_load_from_save_insert(db_table* table, cache_entry* entry){
 	k = kh_put(entry, table->cache_hash_set, entry->hash, &ret);
 	kh_value(table->cache_hash_set, k) = entry;
 
-	//Refs
-	db_entry_incref(entry, false);
-
 	assert(!entry->deleted);
 	db.db_size_bytes += entry->data_length;
 }
@@ -602,15 +602,16 @@ static cache_entry* db_load_from_save_entry(db_table* table, char* key, uint16_t
 }
 
 static bool db_load_from_save(){
-	char buffer[MAX_PATH], buffer2[2048];
-	char *bp = NULL;
+	char buffer[MAX_PATH];
+	char *bp = NULL, *name;
 	bool ret = false;
 	size_t len = 0;
-	uint32_t u1, u2, u3, u4;
+	uint32_t u2, u3, u4;
 	db_table* table = NULL;
 	cache_entry* entry;
-	int d1;
+	int d1, header;
 	ssize_t read;
+	bool* block_used;
 
 	snprintf(buffer, sizeof(buffer), "%s/index.save", db.path_root);
 	int fd = open(buffer, O_RDONLY | O_LARGEFILE, S_IRUSR | S_IWUSR);
@@ -634,26 +635,25 @@ static bool db_load_from_save(){
 		goto close_fd2;
 	}
 
+	block_used = (bool*)calloc((size_t)db.blocks_exist + 1, sizeof(bool));
+
 	while ((read = getline(&bp, &len, fp)) != -1) {
-        if(read <= 2 || bp[1] != ':') continue;
+        if(read <= 2 || bp[1] != ':' || bp[read - 1] != '\n') continue;
+		read--;
 		switch(bp[0]){
 			case 'f':
-				if(sscanf(bp, "f:%u", &u1) != 1){
-					WARN("Free block parsing error\n");
-					continue;
-				}
-				db_block_free(u1);
-			break;
+				//All blocks that are not used by an entry are free
+				break;
 			case 't':
-				if(sscanf(bp, "t:%s", buffer2) != 1){
-					WARN("Table parsing error\n");
-					continue;
-				}
 				if(table != NULL){
 					db_table_deref(table);
 					table = NULL;
 				}
-				table = db_table_get_write(strdup(buffer2), strlen(buffer2));
+				//Names are everything up to the end of the line
+				name = (char*)malloc(read - 1);
+				memcpy(name, bp + 2, read - 2);
+				name[read - 2] = 0;
+				table = db_table_get_write(name, read - 2);
 				entry = NULL;
 				break;
 			case 'b':
@@ -662,13 +662,24 @@ static bool db_load_from_save(){
 					WARN("File entry must be after table\n");
 					continue;
 				}
-				if(sscanf(bp+1, ":%d:%u:%u:%u:%s", &d1, &u2, &u3, &u4, buffer2) != 5){
+				bp[read] = 0;
+				header = 0;
+				if(sscanf(bp+1, ":%d:%u:%u:%u:%n", &d1, &u2, &u3, &u4, &header) != 4 || header == 0){
 					WARN("Entry parsing error\n");
 					continue;
 				}
+				header++;
+				name = (char*)malloc(read - header + 1);
+				memcpy(name, bp + header, read - header);
+				name[read - header] = 0;
 			
 				//>block, ce->data_length, ce->expires, ce->it
-				entry = db_load_from_save_entry(table, strdup(buffer2), strlen(buffer2), d1, u2, u3, u4);
+				entry = db_load_from_save_entry(table, name, read - header, d1, u2, u3, u4);
+
+				//New entries must not use a file name that is in the index (even if the entry is gone, the index stays)
+				if((int16_t)(entry->it + 1 - nextit) > 0){
+					nextit = entry->it + 1;
+				}
 
 				if(d1 < 0){
 					// Test file existance
@@ -676,16 +687,18 @@ static bool db_load_from_save(){
 					
 					if( access( buffer, F_OK ) == -1 ) {
 						DEBUG("skipping as file %s does not exist\n", buffer);
-						free(entry);
+						db_entry_actually_delete(entry);
 						continue;
 					}
 				}else{
 					// Test size of blockfile
-					if(d1 >= db.blocks_exist){
+					if(d1 >= db.blocks_exist || block_used[d1]){
 						DEBUG("skipping as block %d does not exist\n", d1);
-						free(entry);
+						entry->block = -1;
+						db_entry_actually_delete(entry);
 						continue;
 					}
+					block_used[d1] = true;
 				}
 
 				db_load_from_save_insert(table, entry);
@@ -710,7 +723,17 @@ static bool db_load_from_save(){
 	// move over block file (via link to preserve save)
 	snprintf(buffer, sizeof(buffer), "%s/blockfile.db.save", db.path_root);
 	unlink(db.path_blockfile);
-	force_link(buffer, db.path_blockfile);
+	if(!force_link(buffer, db.path_blockfile)){
+		PFATAL("Unable to restore block file: %s", db.path_blockfile);
+	}
+
+	// All blocks that are not used by an entry are free
+	for(uint32_t i = db.blocks_exist; i-- > 0;){
+		if(!block_used[i]){
+			db_block_free_node(i);
+		}
+	}
+	free(block_used);
 
 	ret = true;
 close_fd:
@@ -809,9 +832,12 @@ int db_entry_open_create(struct cache_entry* e) {
 		if(fd >= 0) {
 			return fd;
 		}
+		if(errno != EEXIST) {
+			break;
+		}
 		// This will rollover -- and that's expected
-		// it ensures safety after saving
-		e->it++;
+		// it ensures safety after saving (and the next entries must not use this one)
+		e->it = nextit++;
 	}
 	
 	return -1;
@@ -1386,6 +1412,7 @@ static bool full_write(int fd, const char* buffer, int buffer_length){
 	do {
 		ret = write(fd, buffer, buffer_length);
 		if(ret == -1){
+			if(errno == EINTR) continue;
 			return false;
 		}
 		buffer_length -= ret;
@@ -1401,7 +1428,6 @@ static pid_t db_index_flush(bool copyOnWrite){
 	char buffer[2048], buffer2[2048], buffer3[2048], buffer4[2048];
 	db_table* table;
 	cache_entry* ce;
-	block_free_node *free_node;
 	int temp;
 	
 	// buffer contains the target temp file (${blockfile}.temp)
@@ -1414,7 +1440,12 @@ static pid_t db_index_flush(bool copyOnWrite){
 	fdatasync(db.fd_blockfile);
 
 	// create a hard link from the currentl block file to ${blockfile}.temp
-	force_link(db.path_blockfile, buffer);
+	if(!force_link(db.path_blockfile, buffer)){
+		// keep the previous save
+		WARN("Unable to flush index, unable to copy block file");
+		unlink(buffer);
+		return -1;
+	}
 
 	//If we are forking we can do so now
 	if(copyOnWrite){
@@ -1431,15 +1462,6 @@ static pid_t db_index_flush(bool copyOnWrite){
 		goto close;
 	}
 
-	// Write free blocks
-	free_node = db.free_blocks;
-	while(free_node != NULL){
-		temp = snprintf(buffer, sizeof(buffer), "f:%u\n", free_node->block_number);
-		assert(temp > 0);
-		if(!full_write(fd, buffer, temp)) goto close_fd;
-		free_node = free_node->next;
-	}
-
 	//Write tables and cache entries
 	for (khiter_t ke = kh_begin(db.tables); ke < kh_end(db.tables); ++ke) {
 		if (kh_exist(db.tables, ke)) {
@@ -1475,7 +1497,10 @@ static pid_t db_index_flush(bool copyOnWrite){
 	temp = snprintf(buffer, sizeof(buffer), "%s/index.temp", db.path_root);
 	assert(temp > 0);
 	temp = snprintf(buffer2, sizeof(buffer2), "%s/index.save", db.path_root);
-	unlink(buffer2);
+	if(unlink(buffer2) == -1 && errno != ENOENT){
+		PWARN("Unable to remove previous index");
+		goto close;
+	}
 
 	// blockfile.temp -> blockfile.save
 	temp = snprintf(buffer3, sizeof(buffer3), "%s.temp", db.path_blockfile);
@@ -1484,8 +1509,10 @@ static pid_t db_index_flush(bool copyOnWrite){
 	assert(temp > 0);
 
 	// execute the renames of tmp files to actual
-	rename(buffer, buffer2);
-	rename(buffer3, buffer4);
+	// the index last, it must never exist with the block file of another save
+	if(rename(buffer3, buffer4) == 0){
+		rename(buffer, buffer2);
+	}
 	unlink(buffer3);
 	unlink(buffer);
 
-- 
2.43.0


From 49811b49b046a0666a322d479a60c01fcfdc0426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:42 +0000
Subject: [PATCH 13/22] fix: stalled monitoring clients are closed twice and
 while their events are still to be processed

---
 src/core/connection.cpp     | 10 +++++++++-
 src/core/http_parse_mon.cpp | 17 ++++++-----------
 2 files changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/core/connection.cpp b/src/core/connection.cpp
index b041f9c..dde6ce5 100644
--- a/src/core/connection.cpp
+++ b/src/core/connection.cpp
@@ -542,6 +542,8 @@ void connection_event_loop(void (*connection_handler)(scache_connection* connect
 			}
 		} while(nfds == 0 && !stop_soon);
 
+		bool monitoring_run = false;
+
 		// handle evfds first
 		for (int n = 0; n < nfds; n++) {
 			assert(events[n].data.ptr);
@@ -614,7 +616,9 @@ void connection_event_loop(void (*connection_handler)(scache_connection* connect
 			} else if (lc == &monitoring_connection) {
 				// send out monitoring messages
 				res = read(fd, &u, sizeof(u));
-				monitoring_check();
+
+				// once the events of existing connections have been processed, as it can close them
+				monitoring_run = true;
 			}
 		}
 
@@ -682,6 +686,10 @@ void connection_event_loop(void (*connection_handler)(scache_connection* connect
 					
 			}
 		}
+
+		if (monitoring_run) {
+			monitoring_check();
+		}
 	}
 
 	close_fd(epfd, "epoll socket");
diff --git a/src/core/http_parse_mon.cpp b/src/core/http_parse_mon.cpp
index 6f63907..36f7e71 100644
--- a/src/core/http_parse_mon.cpp
+++ b/src/core/http_parse_mon.cpp
@@ -460,7 +460,6 @@ bool monitoing_needs_to_run(){
 
 void monitoring_check(){
 	scache_connection* conn;
-	int fd;
 	timeval current_time_copy = *(timeval*)&current_time;
 
 	// Every 5ms we will work down any nodes in mon_head that need to be notified
@@ -470,21 +469,19 @@ void monitoring_check(){
 
 		// Not yet time
 		if(timercmp(&conn->monitoring.scheduled, &current_time_copy, >)) break;
-		
-		// move on
-		mon_head = conn->monitoring.next;
-		assert(conn != mon_head);
-		if(mon_head != NULL) mon_head->monitoring.prev = NULL;
 
 		// If buffer wasnt cleared already, then we will need to disconnect
 		if(conn->output_buffer != NULL){
-			fd = conn->client_sock;
-			DEBUG("Failed to output buffer to monitoring connection, will close fd %d\n", fd);
+			DEBUG("Failed to output buffer to monitoring connection, will close fd %d\n", conn->client_sock);
 			http_cleanup(conn);
 			connection_remove(conn);
-			close_socket(fd);
 			continue;
 		}
+		
+		// move on
+		mon_head = conn->monitoring.next;
+		assert(conn != mon_head);
+		if(mon_head != NULL) mon_head->monitoring.prev = NULL;
 
 		// Move to end (tail)
 		if(mon_tail != conn){
@@ -517,10 +514,8 @@ void monitoring_check(){
 		conn = mon_pending_tail;
 		if(timercmp(&conn->monitoring.scheduled, &current_time_copy, >)) break;
 
-		fd = conn->client_sock;		
 		http_cleanup(conn);
 		connection_remove(conn);
-		close_socket(fd);
 
 		assert(conn != mon_pending_tail);
 	}
-- 
2.43.0


From d3d20214d3aea8ba5b954de545c493e292484279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:31 +0000
Subject: [PATCH 14/22] fix: database used from a signal handler, handlers
 change errno, sockets left open when epoll refuses or at shutdown

---
 src/core/connection.cpp | 12 ++++++++----
 src/core/timer.cpp      | 29 +++++++++++++++++++++++++++--
 src/core/timer.h        |  5 ++++-
 3 files changed, 39 insertions(+), 7 deletions(-)

diff --git a/src/core/connection.cpp b/src/core/connection.cpp
index dde6ce5..a153734 100644
--- a/src/core/connection.cpp
+++ b/src/core/connection.cpp
@@ -30,10 +30,8 @@
 #include "debug.h"
 #include "http.h"
 #include "settings.h"
-#ifdef DEBUG_BUILD
-/* For reference counting checks */
+#include "timer.h"
 #include "db.h"
-#endif
 
 /* Globals */
 listener_collection scache_listeners = { .listeners = NULL, .listener_count = 0 };
@@ -604,7 +602,7 @@ void connection_event_loop(void (*connection_handler)(scache_connection* connect
 					res = epoll_ctl(epfd, EPOLL_CTL_ADD, client_sock, &ev);
 					if (res != 0) {
 						PWARN("[#%d] epoll_ctl() failed to add %d.", client_sock, errno);
-						close(client_sock);
+						connection_remove(connection);
 						continue;
 					}
 
@@ -617,6 +615,11 @@ void connection_event_loop(void (*connection_handler)(scache_connection* connect
 				// send out monitoring messages
 				res = read(fd, &u, sizeof(u));
 
+				// index flush requested by a signal
+				if (timer_flush_requested()) {
+					db_lru_gc();
+				}
+
 				// once the events of existing connections have been processed, as it can close them
 				monitoring_run = true;
 			}
@@ -744,6 +747,7 @@ void connection_cleanup() {
 	while(cq_head != NULL){
 		temp = (connections_queued*)cq_head;
 		cq_head = cq_head->next;
+		close(temp->client_sock);
 		free(temp);
 	}
 }
\ No newline at end of file
diff --git a/src/core/timer.cpp b/src/core/timer.cpp
index 5c833df..2e4fd4e 100644
--- a/src/core/timer.cpp
+++ b/src/core/timer.cpp
@@ -6,6 +6,8 @@
 #include <sys/time.h>
 #include <stdint.h>
 #include <unistd.h>
+#include <errno.h>
+#include <signal.h>
 #include "http_parse.h"
 #include "timer.h"
 #include "db.h"
@@ -29,6 +31,7 @@ static void timer_store_current_time()
 static void timer_handler(int signum)
 {
 	uint64_t u = 1;
+	int saved_errno = errno;
 
 	// time accurate to the nearest 5ms
 	timer_store_current_time();
@@ -37,25 +40,47 @@ static void timer_handler(int signum)
 	if(monitoing_needs_to_run()){
 		write(mon_fd, &u, sizeof(u));
 	}	
+
+	// of whatever was interrupted
+	errno = saved_errno;
 }
 
 static void child_handler(int signum)
 {
 	int wstat;
 	pid_t	pid;
+	int saved_errno = errno;
 
 	while (true) {
 		pid = waitpid (-1, &wstat, WNOHANG );
 		if (pid <= 0)
-			return;
+			break;
 			
 		db_handle_sigchld(pid);
 	}
+
+	// of whatever was interrupted
+	errno = saved_errno;
 }
 
+static volatile sig_atomic_t flush_requested = 0;
+
 static void flush_handler(int signum)
 {
-	db_lru_gc();
+	uint64_t u = 1;
+
+	// the database is not to be used from a signal handler, wake up the event loop
+	int saved_errno = errno;
+	flush_requested = 1;
+	write(mon_fd, &u, sizeof(u));
+	errno = saved_errno;
+}
+
+bool timer_flush_requested()
+{
+	if(!flush_requested) return false;
+	flush_requested = 0;
+	return true;
 }
 
 void timer_setup(int evfd)
diff --git a/src/core/timer.h b/src/core/timer.h
index 4f720d5..2aa70a8 100644
--- a/src/core/timer.h
+++ b/src/core/timer.h
@@ -1,4 +1,7 @@
 volatile extern struct timeval current_time;
 
 void timer_setup(int evfd);
-void timer_cleanup();
\ No newline at end of file
+void timer_cleanup();
+
+/* Has an index flush been requested (by signal), since the last time asked */
+bool timer_flush_requested();
-- 
2.43.0


From 6e0ba29169428dc59ffea164a0e9d09b492b8de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:31 +0000
Subject: [PATCH 15/22] fix: bind options are parsed relative to other list
 elements, past their storage and accepted when malformed

---
 src/core/settings.cpp | 52 +++++++++++++++++++++++++++++++++++--------
 1 file changed, 43 insertions(+), 9 deletions(-)

diff --git a/src/core/settings.cpp b/src/core/settings.cpp
index 11263ed..b7bf6dd 100644
--- a/src/core/settings.cpp
+++ b/src/core/settings.cpp
@@ -81,12 +81,15 @@ static void parse_binds(const char* optarg_const, scache_binds* target)
 	memset(current, 0, sizeof(scache_bind) * num);
 
 	// Parse the options string
+	long port;
+	char* port_end;
 	for (int i = 0; i <= len; i++)
 	{
 		char copy = optarg[i];
 		switch (state)
 		{
 		case bind_parse_state::first:
+			state_start = i;
 			if (optarg[i] == '[')
 			{
 				current->af = AF_INET6;
@@ -107,21 +110,44 @@ static void parse_binds(const char* optarg_const, scache_binds* target)
 				current->af = AF_INET;
 				state = bind_parse_state::ipv4;
 			}
-		case bind_parse_state::ipv6:
 		case bind_parse_state::ipv4:
 			if (optarg[i] == ':')
 			{
 				optarg[i] = 0;
-				if (inet_pton(current->af, optarg + state_start, current->addr) < 0) {
-					PFATAL("Error parsing bind address");
+				// No address means all addresses
+				if (i != state_start && inet_pton(current->af, optarg + state_start, current->addr) != 1) {
+					FATAL("Error parsing bind address");
+				}
+				state = bind_parse_state::port;
+				state_start = i + 1;
+			}
+			else if (optarg[i] == 0 || optarg[i] == ',')
+			{
+				FATAL("Error parsing bind, no port");
+			}
+			break;
+		case bind_parse_state::ipv6:
+			if (optarg[i] == ']')
+			{
+				optarg[i] = 0;
+				if (optarg[i + 1] != ':' || inet_pton(current->af, optarg + state_start, current->addr) != 1) {
+					FATAL("Error parsing bind address");
 				}
+				i++;
 				state = bind_parse_state::port;
 				state_start = i + 1;
 			}
+			else if (optarg[i] == 0 || optarg[i] == ',')
+			{
+				FATAL("Error parsing bind address, missing ]");
+			}
 			break;
 		case bind_parse_state::unix_path:
 			if (optarg[i] == 0 || optarg[i] == ',')
 			{
+				if (i == state_start || i - state_start >= (int)sizeof(((struct sockaddr_un*)0)->sun_path)) {
+					FATAL("Error parsing bind, invalid unix socket path");
+				}
 				memcpy(current->addr, optarg + state_start, i - state_start);
 				current->port = 0;
 				if (optarg[i] == ',')
@@ -133,13 +159,21 @@ static void parse_binds(const char* optarg_const, scache_binds* target)
 			}
 			break;
 		case bind_parse_state::port:
-			if(optarg[i] == 't'){
-				current->transparent = true;
-			}
-			else if (optarg[i] == 0 || optarg[i] == ',')
+			if (optarg[i] == 0 || optarg[i] == ',')
 			{
-				optarg[current->transparent ? (i - 1) : i] = 0;
-				current->port = atoi(optarg + state_start);
+				optarg[i] = 0;
+				port = strtol(optarg + state_start, &port_end, 10);
+				if (optarg[state_start] < '0' || optarg[state_start] > '9' || port > 65535) {
+					FATAL("Error parsing bind port");
+				}
+				if (*port_end == 't') {
+					current->transparent = true;
+					port_end++;
+				}
+				if (port_end != optarg + i) {
+					FATAL("Error parsing bind port");
+				}
+				current->port = port;
 				if (copy == ',')
 				{
 					current++;
-- 
2.43.0


From 56f09f88d98f112b8b6292e0df608b8b7760328e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:17 +0000
Subject: [PATCH 16/22] fix: a header line of a lone colon ends the request

---
 src/core/http_parse_cache.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/http_parse_cache.cpp b/src/core/http_parse_cache.cpp
index 87e3680..700d336 100644
--- a/src/core/http_parse_cache.cpp
+++ b/src/core/http_parse_cache.cpp
@@ -322,6 +322,9 @@ static state_action http_read_requeststarturl2(scache_connection* connection, ch
 
 static state_action http_read_headers(scache_connection* connection, char* buffer, int n, uint32_t& temporary) {
 	if (*buffer == ':') {
+		//Not an empty line, whatever follows
+		temporary = 0;
+
 		//All bytes from the start of the line (the read position) up to here
 		int bytes = n;
 		DEBUG("[#%d] Found header of length %d\n", connection->client_sock, bytes);
-- 
2.43.0


From b011b2d2ad6b36cd300e6ab2a381ce9763e69a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:39 +0000
Subject: [PATCH 17/22] fix: the statistics request is answered before it has
 been read, the rest is taken for another request

---
 src/core/http_parse_cache.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/http_parse_cache.cpp b/src/core/http_parse_cache.cpp
index 700d336..460c124 100644
--- a/src/core/http_parse_cache.cpp
+++ b/src/core/http_parse_cache.cpp
@@ -28,7 +28,7 @@
 extern int epfd;
 
 static state_action http_stats_after_eol(scache_connection* connection) {
-	connection->state = 0;
+	connection->state = 2;
 	CONNECTION_HANDLER(connection,  http_cache_handle_eolstats);
 	return needs_more_read;
 }
-- 
2.43.0


From 8db1a89ebb09094722003aff1d099ec460731e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:41 +0000
Subject: [PATCH 18/22] fix: a client leaving in the middle of DELETE removes
 the file another client is uploading

---
 src/core/db.cpp | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/core/db.cpp b/src/core/db.cpp
index caa8d1a..95100c6 100644
--- a/src/core/db.cpp
+++ b/src/core/db.cpp
@@ -884,10 +884,6 @@ void db_target_entry_close(cache_target* target) {
 		if (target->fd != db.fd_blockfile && target->fd >= 0) {
 			assert(target->fd > 0 || (settings.daemon_mode && target->fd >= 0));
 			close_fd(target->fd, "file descriptor (cache file)");
-
-			if(target->entry->writing){
-				db_entry_delete(target->entry);
-			}
 		}
 
 		target->fd = -1;
-- 
2.43.0


From cc11515a792717852033078dd5f228a7e85a2cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:28 +0000
Subject: [PATCH 19/22] fix: read the expiry time of an index entry with the
 width it is written with

---
 src/core/db.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/core/db.cpp b/src/core/db.cpp
index 95100c6..3e5206b 100644
--- a/src/core/db.cpp
+++ b/src/core/db.cpp
@@ -606,7 +606,8 @@ static bool db_load_from_save(){
 	char *bp = NULL, *name;
 	bool ret = false;
 	size_t len = 0;
-	uint32_t u2, u3, u4;
+	uint32_t u2, u4;
+	unsigned long expires;
 	db_table* table = NULL;
 	cache_entry* entry;
 	int d1, header;
@@ -664,7 +665,7 @@ static bool db_load_from_save(){
 				}
 				bp[read] = 0;
 				header = 0;
-				if(sscanf(bp+1, ":%d:%u:%u:%u:%n", &d1, &u2, &u3, &u4, &header) != 4 || header == 0){
+				if(sscanf(bp+1, ":%d:%u:%lu:%u:%n", &d1, &u2, &expires, &u4, &header) != 4 || header == 0){
 					WARN("Entry parsing error\n");
 					continue;
 				}
@@ -674,7 +675,7 @@ static bool db_load_from_save(){
 				name[read - header] = 0;
 			
 				//>block, ce->data_length, ce->expires, ce->it
-				entry = db_load_from_save_entry(table, name, read - header, d1, u2, u3, u4);
+				entry = db_load_from_save_entry(table, name, read - header, d1, u2, (time_t)expires, u4);
 
 				//New entries must not use a file name that is in the index (even if the entry is gone, the index stays)
 				if((int16_t)(entry->it + 1 - nextit) > 0){
-- 
2.43.0


From 2d188f627087941b6eaa835bf9a78d727baab90e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:43 +0000
Subject: [PATCH 20/22] fix: lock the PID file exclusively, a second server was
 not refused

---
 src/server/scache.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/server/scache.cpp b/src/server/scache.cpp
index 6f1abc8..c6c0e5a 100644
--- a/src/server/scache.cpp
+++ b/src/server/scache.cpp
@@ -36,7 +36,7 @@ int write_pid(char* pidFile, __pid_t pid) {
 	if (fd == -1)
 		PFATAL("Could not open PID file %s", pidFile);
 
-	if (flock(fd, F_WRLCK) == -1) {
+	if (flock(fd, LOCK_EX | LOCK_NB) == -1) {
 		if (errno == EAGAIN || errno == EACCES)
 			PFATAL("PID file '%s' is locked; probably "
 			"scache is already running", pidFile);
-- 
2.43.0


From c546d4ee117736674b5608bd9728524f031b4d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:06 +0000
Subject: [PATCH 21/22] fix: write the number of the daemon process to the PID
 file, not 0

---
 src/server/scache.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/server/scache.cpp b/src/server/scache.cpp
index c6c0e5a..db8a98c 100644
--- a/src/server/scache.cpp
+++ b/src/server/scache.cpp
@@ -114,7 +114,7 @@ static __pid_t fork_off() {
 		exit(0);
 
 	}
-	return npid;
+	return getpid();
 }
 
 /* Time to go down the rabbit hole */
-- 
2.43.0


From 2ef7f2c95d8d2396bc6c10ac8df3fd4494be8859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:16 +0000
Subject: [PATCH 22/22] fix: a GET of a key that is still being uploaded is not
 counted as a key fetched

---
 src/core/db.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/core/db.cpp b/src/core/db.cpp
index 3e5206b..0dfc588 100644
--- a/src/core/db.cpp
+++ b/src/core/db.cpp
@@ -945,16 +945,16 @@ cache_entry* db_entry_get_read(struct db_table* table, char* key, size_t length)
 	//Free key text, not needed.
 	free(key);
 
-	//Stats
-	db.db_stats_gets++;
-	db.db_stats_operations++;
-
 	//Check if currently writing (unfinished)
 	if (entry->writing) {
 		//TODO: possibly future, subscribe and writer handles data delivery
 		return NULL;
 	}
 
+	//Stats
+	db.db_stats_gets++;
+	db.db_stats_operations++;
+
 	//LRU hit
 	db_lru_hit(entry);
 
-- 
2.43.0

