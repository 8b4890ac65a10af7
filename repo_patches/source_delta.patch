From 15bb2d39fb1b50f848a95a35aa2521ed6538806f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:33 +0000
Subject: [PATCH 001/127] fix: report overflow when negating the smallest
 number

---
 source/interpreter/operators.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/interpreter/operators.c b/source/interpreter/operators.c
index 38d9e0c..d89cb1b 100644
--- a/source/interpreter/operators.c
+++ b/source/interpreter/operators.c
@@ -127,6 +127,7 @@ void op_negate(struct ptc* p){
 	struct stack_entry* a = stack_pop(s);
 	
 	fixp x = VALUE_NUM(a);
+	if (x == INT_MIN) ERROR(ERR_OVERFLOW); // has no positive counterpart
 
 	stack_push(s, (struct stack_entry){VAR_NUMBER, {-x}});
 }
-- 
2.43.0


From b6caec265c6184b53dc995677b45b33b6d802ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:33 +0000
Subject: [PATCH 002/127] fix: avoid trapping division in modulo by the
 smallest negative step

---
 source/interpreter/operators.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/interpreter/operators.c b/source/interpreter/operators.c
index d89cb1b..9fb3fde 100644
--- a/source/interpreter/operators.c
+++ b/source/interpreter/operators.c
@@ -287,7 +287,8 @@ void op_modulo(struct ptc* p){
 	
 	if (y == 0) ERROR(ERR_DIVIDE_BY_ZERO);
 	
-	stack_push(s, (struct stack_entry){VAR_NUMBER, {x % y}});
+	// INT_MIN % -1 traps on some platforms, even though the result is zero
+	stack_push(s, (struct stack_entry){VAR_NUMBER, {y == -1 ? 0 : x % y}});
 }
 
 void op_and(struct ptc* p){
-- 
2.43.0


From ffec915518baf00ca8d6b09c52d100f24041f3a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:33 +0000
Subject: [PATCH 003/127] fix: subtraction after &H and &B literals was parsed
 as negation

---
 source/interpreter/tokens.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/interpreter/tokens.c b/source/interpreter/tokens.c
index 5b6a3f5..4e69242 100644
--- a/source/interpreter/tokens.c
+++ b/source/interpreter/tokens.c
@@ -1220,12 +1220,13 @@ void tok_prio(struct tokenizer* state){
 					state->tokens[i].prio = nest + 4;
 					break;
 				case OP_SUBTRACT:
-					if ((i>0 && state->tokens[i-1].type == number) ||
+					if (i>0 && (state->tokens[i-1].type == number ||
+							state->tokens[i-1].type == base_number ||
 							state->tokens[i-1].type == name ||
 							state->tokens[i-1].type == sysvar || 
 							(state->tokens[i-1].type == operation && (
 								state->tokens[i-1].cmd > OP_OPEN_PAREN
-							))){
+							)))){
 						state->tokens[i].prio = nest + 4;
 					} else {
 						state->tokens[i].cmd = OP_NEGATE;
-- 
2.43.0


From f903b97e2cd19341b926eed75ad133729df667de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:55 +0000
Subject: [PATCH 004/127] fix: minus after an opening bracket was parsed as
 subtraction

---
 source/interpreter/tokens.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/interpreter/tokens.c b/source/interpreter/tokens.c
index 4e69242..8ee3169 100644
--- a/source/interpreter/tokens.c
+++ b/source/interpreter/tokens.c
@@ -1225,7 +1225,8 @@ void tok_prio(struct tokenizer* state){
 							state->tokens[i-1].type == name ||
 							state->tokens[i-1].type == sysvar || 
 							(state->tokens[i-1].type == operation && (
-								state->tokens[i-1].cmd > OP_OPEN_PAREN
+								state->tokens[i-1].cmd == OP_CLOSE_PAREN ||
+								state->tokens[i-1].cmd == OP_CLOSE_BRACKET
 							)))){
 						state->tokens[i].prio = nest + 4;
 					} else {
-- 
2.43.0


From 57dfed572f46a38753c93b19ca3272163096ff90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:22 +0000
Subject: [PATCH 005/127] fix: carry rounded fraction into the integer part
 when printing numbers

---
 source/interpreter/strs.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/interpreter/strs.c b/source/interpreter/strs.c
index 85eb283..49d930d 100644
--- a/source/interpreter/strs.c
+++ b/source/interpreter/strs.c
@@ -268,11 +268,13 @@ void fixp_to_char(const fixp n, u8* str){
 	if (n < 0){
 		(*str++) = '-';
 	}
-	fixp num = n < 0 ? -n : n;
+	u32 num = n < 0 ? -(u32)n : (u32)n;
+	// Rounding can carry into the integer part
+	num += 2;
 	
 	u32 integer = num >> FIXPOINT;
 	const u32 decimal_mask = (INT_TO_FP(1) - 1); //default: 0x00000fff
-	u32 decimal = ((((num & decimal_mask) + 2) * 1000) >> FIXPOINT);
+	u32 decimal = ((num & decimal_mask) * 1000) >> FIXPOINT;
 	u32 divisor = 100000;
 	bool trailing = false;
 	// Loop until divisor is zero (to get all digits)
-- 
2.43.0


From 349e1f4c02990d780a35abb3f341ce3361b39a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:01 +0000
Subject: [PATCH 006/127] fix: parse numbers with many decimal digits without
 overflowing

---
 source/interpreter/strs.c | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/source/interpreter/strs.c b/source/interpreter/strs.c
index 49d930d..9d6f883 100644
--- a/source/interpreter/strs.c
+++ b/source/interpreter/strs.c
@@ -173,9 +173,9 @@ int64_t u8_to_number(u8* data, const int len, const int base, const bool allow_d
 int64_t str_to_number(const void* str, const int base, const bool allow_decimal){
 	size_t len = str_len(str);
 	
-	unsigned int number = 0;
-	unsigned int fraction = 0;
-	unsigned int maximum = 1;
+	int64_t number = 0;
+	int64_t fraction = 0;
+	int64_t maximum = 1;
 	
 	bool is_negative = false;
 	
@@ -190,9 +190,12 @@ int64_t str_to_number(const void* str, const int base, const bool allow_decimal)
 			for (size_t k = i; k < len; ++k){
 				digit = digit_value(str_at_wide(str, k));
 				if (digit >= 0 && digit < base){
-					fraction *= base;
-					maximum *= base;
-					fraction += digit;
+					// Digits past this point are too small to affect the result
+					if (maximum < 1000000000000000){
+						fraction *= base;
+						maximum *= base;
+						fraction += digit;
+					}
 				} else {
 					// Stop reading on invalid character (useful for VAL)
 					// Note: second period is not allowed
@@ -206,17 +209,14 @@ int64_t str_to_number(const void* str, const int base, const bool allow_decimal)
 			// Stop reading on invalid character (useful for VAL)
 			break;
 		}
-		if (number >= 524288){
+		if (number > 524288){
 			break;
 		}
 	}
 	
-	int64_t combined;
+	int64_t combined = number * 4096 + 4096 * fraction / maximum;
 	if (is_negative){
-		combined = INT_TO_FP(-number);
-		combined -= INT_TO_FP(1) * fraction / maximum;
-	} else {
-		combined = ((int64_t)number * 4096) + 4096 * fraction / maximum;
+		combined = -combined;
 	}
 	
 //	printf("Number := %f Combined := %d\n", (double)number, combined);
-- 
2.43.0


From 65f07cad12b244054c5da5bd15c9dcb827e98a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:01 +0000
Subject: [PATCH 007/127] fix: reject number literals of 1048576 and above as
 overflow

---
 source/interpreter/tokens.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/source/interpreter/tokens.c b/source/interpreter/tokens.c
index 8ee3169..e71179f 100644
--- a/source/interpreter/tokens.c
+++ b/source/interpreter/tokens.c
@@ -772,11 +772,9 @@ int tok_code(struct tokenizer* state){
 				
 			number_common:
 //				iprintf("full: %lx\n", n);
-				if (((n >> 31) & 0x1) != ((uint64_t)n >> 63)){
-					if (n >= 0x080000000l && n <= 0x0ffffffff && state->tokens[i].type == number){
-						// this is not an error for &H or &B, but is for number
-						return ERR_OVERFLOW;
-					}
+				if (n > INT32_MAX && state->tokens[i].type == number){
+					// this is not an error for &H or &B, but is for number
+					return ERR_OVERFLOW;
 				}
 				if (n >= 0 && n < INT_TO_FP(100) && n == (n & (fixp)0xfffff000)){
 					data[(*size)++] = BC_SMALL_NUMBER;
-- 
2.43.0


From 1297e236048a825a961bd7f8d4ff32816fc5ac75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:01 +0000
Subject: [PATCH 008/127] fix: VAL of a string shorter than its prefix read
 uninitialized data

---
 source/interpreter/strfuncs.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/interpreter/strfuncs.c b/source/interpreter/strfuncs.c
index ea3bb84..a06c03f 100644
--- a/source/interpreter/strfuncs.c
+++ b/source/interpreter/strfuncs.c
@@ -61,9 +61,9 @@ void func_val(struct ptc* p){
 //	bool negate = false;
 	fixp v;
 
-	u8 first_char = num_str[0];
+	u8 first_char = len > 0 ? num_str[0] : 0;
 	if (first_char == '&'){
-		u8 second_char = num_str[1];
+		u8 second_char = len > 1 ? num_str[1] : 0;
 		int base = 0;
 		if (second_char == 'H'){
 			base = 16; // parse as hex
-- 
2.43.0


From 01e631f5fe6474b8346934a8094da10e39b25dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:01 +0000
Subject: [PATCH 009/127] fix: VAL reports overflow instead of wrapping

---
 source/interpreter/strfuncs.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/source/interpreter/strfuncs.c b/source/interpreter/strfuncs.c
index a06c03f..ba50223 100644
--- a/source/interpreter/strfuncs.c
+++ b/source/interpreter/strfuncs.c
@@ -74,7 +74,11 @@ void func_val(struct ptc* p){
 		}
 		v = u8_to_number(num_str + 2, len-2, base, false);
 	} else {
-		v = u8_to_num(num_str, len);
+		int64_t n = u8_to_num(num_str, len);
+		if (n < INT32_MIN || n > INT32_MAX){
+			ERROR(ERR_OVERFLOW);
+		}
+		v = n;
 	}
 	
 	stack_push(s, (struct stack_entry){VAR_NUMBER, {v}});
-- 
2.43.0


From 599e86c6210932645d392a7d9ee9a55af9c0f8e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:20 +0000
Subject: [PATCH 010/127] fix: RETURN inside a loop without GOSUB read before
 the call stack

---
 source/interpreter/flow.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/interpreter/flow.c b/source/interpreter/flow.c
index 38cae71..bfa61aa 100644
--- a/source/interpreter/flow.c
+++ b/source/interpreter/flow.c
@@ -269,7 +269,7 @@ void cmd_return(struct ptc* p){
 		if (p->calls.entry[--stack_i].type == CALL_GOSUB){
 			break;
 		}
-		if (stack_i < 0){
+		if (stack_i <= 0){
 			// did not find GOSUB anywhere in stack
 			p->exec.error = ERR_RETURN_WITHOUT_GOSUB;
 			return;
-- 
2.43.0


From 7bf3df20e09a203c4506f0a4698634cf615f677a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:39 +0000
Subject: [PATCH 011/127] fix: NEXT of an outer loop checked the inner loop's
 variable again

---
 source/interpreter/flow.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/interpreter/flow.c b/source/interpreter/flow.c
index bfa61aa..4277553 100644
--- a/source/interpreter/flow.c
+++ b/source/interpreter/flow.c
@@ -136,8 +136,9 @@ void cmd_next(struct ptc* p){
 			p->calls.entry[i] = p->calls.entry[i+1];
 		}
 	} else {
-		// loop continues, jump back to this point
-		p->exec.index = to_start;
+		// loop continues, jump back to just after the loop start (BC_BEGIN_LOOP)
+		// END and STEP were already evaluated and checked above
+		p->exec.index = to_start + to_size + 2;
 	}
 	// NEXT should clear stack when done
 	p->stack.stack_i = 0;
-- 
2.43.0


From 3097a94976862045bcb04439ee76a67006b591e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:39 +0000
Subject: [PATCH 012/127] fix: a FOR loop executed zero times stayed active

---
 source/interpreter/runner.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/interpreter/runner.c b/source/interpreter/runner.c
index 40a9d51..64c3969 100644
--- a/source/interpreter/runner.c
+++ b/source/interpreter/runner.c
@@ -457,6 +457,8 @@ ITCM_CODE void _run(struct bytecode code, struct ptc* p, bool init_exec) {
 //				iprintf("val:%d end:%d step:%d\n", val, end, step);
 				if ((step < 0 && end > val) || (step >= 0 && end < val)){
 					// if val + step will never reach end, then skip to NEXT
+					// the loop never starts, so remove its entry
+					p->calls.stack_i--;
 					// treat valid NEXT as first in a line
 					int nest = 1;
 					// Scan for NEXT only at start of line
-- 
2.43.0


From 6a79582c746419e6a9c2c5f9b4f9267cb5db8fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:53 +0000
Subject: [PATCH 013/127] fix: skipping a FOR loop did not count NEXT of a
 nested loop's variable

---
 source/interpreter/runner.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/interpreter/runner.c b/source/interpreter/runner.c
index 64c3969..2a9cdf7 100644
--- a/source/interpreter/runner.c
+++ b/source/interpreter/runner.c
@@ -502,7 +502,8 @@ ITCM_CODE void _run(struct bytecode code, struct ptc* p, bool init_exec) {
 										result.index += 2; // past NEXT [var]
 										break; // ignore nesting?
 									}
-									// ignore otherwise? unclear
+									// otherwise, this NEXT ends a loop nested inside
+									if (nest > 1) nest--;
 								} else {
 									// treat as generic next
 									nest--;
-- 
2.43.0


From a6e1ba98e5f27520371a704ca55bbb53d5d9347c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:17 +0000
Subject: [PATCH 014/127] fix: statements after a label were dropped when
 labels are not compiled

---
 source/interpreter/tokens.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/source/interpreter/tokens.c b/source/interpreter/tokens.c
index e71179f..f5295a3 100644
--- a/source/interpreter/tokens.c
+++ b/source/interpreter/tokens.c
@@ -314,8 +314,13 @@ int tok_convert(struct tokenizer* state){
 		if (state->opts & TOKOPT_NO_LABELS){
 			// don't compile label into an actual statement
 			// This also breaks the line_length calculation, but that doesn't actually do anything useful right now?
-			state->token_i = 0; // mark tokens as used
-			return ERR_NONE;
+			// the rest of the line is compiled as usual
+			state->token_i--;
+			memmove(&state->tokens[0], &state->tokens[1], sizeof(state->tokens[0]) * state->token_i);
+			if (state->token_i <= 1){
+				state->token_i = 0; // mark tokens as used
+				return ERR_NONE;
+			}
 		}
 	}
 	
-- 
2.43.0


From 5a0f013279c6ccecfe0730f1b65398a6654516f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:09 +0000
Subject: [PATCH 015/127] fix: IF followed by REM or DATA on its line lost its
 end marker

---
 source/interpreter/tokens.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/source/interpreter/tokens.c b/source/interpreter/tokens.c
index f5295a3..efd174b 100644
--- a/source/interpreter/tokens.c
+++ b/source/interpreter/tokens.c
@@ -737,7 +737,6 @@ int tok_data(struct tokenizer* state, struct token start_t, char* data, idx* siz
 		data[(*size)++] = 0; // pad one null to keep instructions aligned
 	}
 
-	state->token_i = 0;
 	return ERR_NONE;
 	// End of DATA special rules
 }
@@ -918,7 +917,7 @@ int tok_code(struct tokenizer* state){
 				break;
 				
 			case comment:
-				goto tok_code_exit;
+				break; // nothing to compile, but an ENDIF may follow
 				
 			default:
 				iprintf("Unknown token: ");
@@ -928,7 +927,6 @@ int tok_code(struct tokenizer* state){
 		}
 	}
 	
-tok_code_exit:
 	// Validation must be placed at end to happen after assignment
 /// Sysvars that allow assignment (and thus need validation)
 #define SYSVAR_NEEDS_VALIDATE (\
-- 
2.43.0


From d5607979a254c9a2cb3949bfc76bde199119d98d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:45 +0000
Subject: [PATCH 016/127] fix: jumping to a string that is no valid label name
 crashed

---
 source/interpreter/label.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/source/interpreter/label.c b/source/interpreter/label.c
index 6580785..bcb393c 100644
--- a/source/interpreter/label.c
+++ b/source/interpreter/label.c
@@ -106,14 +106,18 @@ idx search_label(struct ptc* p, void* label){
 	// Labels must always be located at the beginning of a line.
 	idx index = 0;
 
-	u8 buf[MAX_LABEL_SIZE+1]; // +1 to include the @ symbol in cases of strings
+	u8 buf[MAX_LABEL_SIZE+1] = {0}; // +1 to include the @ symbol in cases of strings
 	char* buf_ptr = (char*)buf;
 	int len = str_len(label);
-	if (*(char*)label == BC_LABEL || *(char*)label == BC_LABEL_STRING){
-		assert(len <= 16);
+	bool is_label = *(char*)label == BC_LABEL || *(char*)label == BC_LABEL_STRING;
+	if (len > (is_label ? MAX_LABEL_SIZE : MAX_LABEL_SIZE+1) || len < (is_label ? 1 : 2)){
+		// no label can have this name
+		p->exec.error = ERR_LABEL_NOT_FOUND;
+		return p->exec.code.size;
+	}
+	if (is_label){
 		str_char_copy(label, buf);
 	} else { // assume regular string
-		assert(len <= 17);
 		str_char_copy(label, buf);
 		++buf_ptr; // pointer past '@'
 		--len; // remove '@'
-- 
2.43.0


From 07394756ec66696ad160a85299d2885757aa854d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:38 +0000
Subject: [PATCH 017/127] fix: DIM and compiling failed after any earlier
 variable error

---
 source/interpreter/runner.c | 10 ++++++----
 source/interpreter/tokens.c |  2 +-
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/source/interpreter/runner.c b/source/interpreter/runner.c
index 2a9cdf7..1ac80ea 100644
--- a/source/interpreter/runner.c
+++ b/source/interpreter/runner.c
@@ -402,8 +402,9 @@ ITCM_CODE void _run(struct bytecode code, struct ptc* p, bool init_exec) {
 				iprintf("name=");
 				if (data >= 'A'){
 					iprintf("%c ", data);
-					get_new_arr_var(&p->vars, &data, 1, VAR_NUMBER | VAR_ARRAY, a, b);
-					r->error = p->vars.error;
+					if (!get_new_arr_var(&p->vars, &data, 1, VAR_NUMBER | VAR_ARRAY, a, b)){
+						r->error = p->vars.error;
+					}
 				} else {
 					char* x = (char*)&r->code.data[r->index];
 					iprintf("%.*s", data, x);
@@ -412,8 +413,9 @@ ITCM_CODE void _run(struct bytecode code, struct ptc* p, bool init_exec) {
 					enum types t = x[(u8)data-1] == '$' ? VAR_STRING : VAR_NUMBER;
 					u32 len = t & VAR_NUMBER ? data : data-1;
 					
-					get_new_arr_var(&p->vars, x, len, t | VAR_ARRAY, a, b);
-					r->error = p->vars.error;
+					if (!get_new_arr_var(&p->vars, x, len, t | VAR_ARRAY, a, b)){
+						r->error = p->vars.error;
+					}
 				}
 				
 				iprintf(" dim=%d,%d", (int)a, (int)b);
diff --git a/source/interpreter/tokens.c b/source/interpreter/tokens.c
index efd174b..1827cd3 100644
--- a/source/interpreter/tokens.c
+++ b/source/interpreter/tokens.c
@@ -843,7 +843,7 @@ int tok_code(struct tokenizer* state){
 					if (is_array_type) t |= VAR_ARRAY;
 					
 					struct named_var* v = get_var(&state->system->vars, &state->source->data[state->tokens[i].ofs], len, t);
-					if (state->system->vars.error != ERR_NONE){
+					if (!v){
 						return state->system->vars.error;
 					}
 //					iprintf("var %p: type=%d name=%s data=%d\n", (void*)v, v->type, v->name, v->value.number);
-- 
2.43.0


From 944b97d4f94744fc78ae9048ca97c8989b4d770e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:38 +0000
Subject: [PATCH 018/127] fix: DIM with sizes that do not fit reported no error
 or overran array memory

---
 source/interpreter/arrays.c | 8 +++++---
 source/interpreter/vars.c   | 7 ++++++-
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/source/interpreter/arrays.c b/source/interpreter/arrays.c
index dad69ca..609bc25 100644
--- a/source/interpreter/arrays.c
+++ b/source/interpreter/arrays.c
@@ -27,13 +27,15 @@ void free_mem_arr(struct arrays* a){
 
 void* get_init_new_arr(struct arrays* a, u32 size1, u32 size2, int type){
 	u32* new_arr = (u32*)&((union value*)a->arr_data)[a->arr_data_next];
-	int size = size1;
+	uint64_t total = size1;
 	if (size2 != ARR_DIM2_UNUSED){
-		size *= size2;
+		total *= size2;
+		if (size2 > a->arr_data_size) return NULL; // (also negative)
 	}
-	if (a->arr_data_next + size + 2 >= a->arr_data_size){
+	if (size1 > a->arr_data_size || a->arr_data_next + total + 2 >= a->arr_data_size){
 		return NULL; // not enough memory for this
 	}
+	int size = total;
 	a->arr_data_next += size + 2;
 	new_arr[0] = size1;
 	new_arr[1] = size2;
diff --git a/source/interpreter/vars.c b/source/interpreter/vars.c
index 4d082ce..deddc22 100644
--- a/source/interpreter/vars.c
+++ b/source/interpreter/vars.c
@@ -92,6 +92,11 @@ struct named_var* get_new_arr_var(struct variables* v, char* name, u32 len, enum
 	// Or if value was CLEARed, so it is OK to re-generate array
 	if (var->type == VAR_EMPTY
 		|| (v->clear_values && var->value.ptr == NULL)){
+		void* arr = get_init_new_arr(v->arrs, dim1, dim2, type);
+		if (!arr){
+			v->error = ERR_OUT_OF_MEMORY;
+			return NULL;
+		}
 		++v->var_count;
 		// set var type
 		var->type = type;
@@ -105,7 +110,7 @@ struct named_var* get_new_arr_var(struct variables* v, char* name, u32 len, enum
 		}
 		
 		// set var ptr
-		var->value.ptr = get_init_new_arr(v->arrs, dim1, dim2, type);
+		var->value.ptr = arr;
 		return var;
 	} else {
 		// array already exists!
-- 
2.43.0


From 6e0b8a81a458f91c5d0e78da26e1f74c51f91ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:55 +0000
Subject: [PATCH 019/127] fix: two indexes into a one-dimensional array
 accessed memory outside it

---
 source/interpreter/vars.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/interpreter/vars.c b/source/interpreter/vars.c
index deddc22..b4daee3 100644
--- a/source/interpreter/vars.c
+++ b/source/interpreter/vars.c
@@ -173,7 +173,7 @@ union value* get_arr_entry_via_ptr(struct variables* v, union value* arr, u32 ix
 	if (ix < arr_size(arr->ptr, ARR_DIM1)){
 		if (iy == ARR_DIM2_UNUSED){
 			return arr_entry(arr->ptr, ix, 0);
-		} else if (iy < arr_size(arr->ptr, ARR_DIM2)){
+		} else if (arr_size(arr->ptr, ARR_DIM2) != ARR_DIM2_UNUSED && iy < arr_size(arr->ptr, ARR_DIM2)){
 			return arr_entry(arr->ptr, ix, iy);
 		} else {
 			v->error = ERR_SUBSCRIPT_OUT_OF_RANGE_Y;
-- 
2.43.0


From d4aa0f44dc6cd52a961a78182324187d5b8b4cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:55 +0000
Subject: [PATCH 020/127] fix: a second index of -1 was taken as no second
 index

---
 source/interpreter/runner.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/source/interpreter/runner.c b/source/interpreter/runner.c
index 1ac80ea..ed671e0 100644
--- a/source/interpreter/runner.c
+++ b/source/interpreter/runner.c
@@ -322,6 +322,11 @@ ITCM_CODE void _run(struct bytecode code, struct ptc* p, bool init_exec) {
 					idx a = (r->argcount == 2) ? STACK_REL_INT(-2) : STACK_REL_INT(-1);
 					idx b = (r->argcount == 2) ? (idx)STACK_REL_INT(-1) : ARR_DIM2_UNUSED;
 					p->stack.stack_i -= r->argcount;
+					if (r->argcount == 2 && b == ARR_DIM2_UNUSED){
+						// -1 is not an index
+						r->error = ERR_SUBSCRIPT_OUT_OF_RANGE_Y;
+						break;
+					}
 					
 					union value* entry = get_arr_entry_via_ptr(&p->vars, &v->value, a, b, v->type);
 					if (!entry){
@@ -372,6 +377,11 @@ ITCM_CODE void _run(struct bytecode code, struct ptc* p, bool init_exec) {
 					idx a = (r->argcount == 2) ? STACK_REL_INT(-2) : STACK_REL_INT(-1);
 					idx b = (r->argcount == 2) ? (idx)STACK_REL_INT(-1) : ARR_DIM2_UNUSED;
 					p->stack.stack_i -= r->argcount;
+					if (r->argcount == 2 && b == ARR_DIM2_UNUSED){
+						// -1 is not an index
+						r->error = ERR_SUBSCRIPT_OUT_OF_RANGE_Y;
+						break;
+					}
 					
 					union value* val = get_arr_entry(&p->vars, var.name, var.len, var.type | VAR_ARRAY, a, b);
 					if (!val){
@@ -398,6 +408,11 @@ ITCM_CODE void _run(struct bytecode code, struct ptc* p, bool init_exec) {
 				idx a = (r->argcount == 2) ? STACK_REL_INT(-2) : STACK_REL_INT(-1);
 				idx b = (r->argcount == 2) ? (idx)STACK_REL_INT(-1) : ARR_DIM2_UNUSED;
 				p->stack.stack_i -= r->argcount;
+				if (r->argcount == 2 && b == ARR_DIM2_UNUSED){
+					// -1 is not a size
+					r->error = ERR_SUBSCRIPT_OUT_OF_RANGE_Y;
+					break;
+				}
 				
 				iprintf("name=");
 				if (data >= 'A'){
-- 
2.43.0


From 360835765b4cbe987dcb74870b7ed449171e7a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:55 +0000
Subject: [PATCH 021/127] fix: string literals of 128 and more characters ended
 the program

---
 source/interpreter/runner.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/interpreter/runner.c b/source/interpreter/runner.c
index ed671e0..616c21e 100644
--- a/source/interpreter/runner.c
+++ b/source/interpreter/runner.c
@@ -185,7 +185,7 @@ ITCM_CODE void _run(struct bytecode code, struct ptc* p, bool init_exec) {
 		// get one instruction and execute it
 		start_time(&p->time);
 		char instr = r->code.data[r->index++];
-		char data = r->code.data[r->index++];
+		u8 data = r->code.data[r->index++];
 		
 		iprintf("%c ", instr);
 		
@@ -417,7 +417,7 @@ ITCM_CODE void _run(struct bytecode code, struct ptc* p, bool init_exec) {
 				iprintf("name=");
 				if (data >= 'A'){
 					iprintf("%c ", data);
-					if (!get_new_arr_var(&p->vars, &data, 1, VAR_NUMBER | VAR_ARRAY, a, b)){
+					if (!get_new_arr_var(&p->vars, (char*)&data, 1, VAR_NUMBER | VAR_ARRAY, a, b)){
 						r->error = p->vars.error;
 					}
 				} else {
-- 
2.43.0


From 163de612ddfa2c1ed54d10dcddc8f8bec770653c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:18 +0000
Subject: [PATCH 022/127] fix: names longer than 16 characters aborted or were
 cut instead of being an error

---
 source/interpreter/tokens.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/source/interpreter/tokens.c b/source/interpreter/tokens.c
index 1827cd3..e67e82a 100644
--- a/source/interpreter/tokens.c
+++ b/source/interpreter/tokens.c
@@ -1340,7 +1340,7 @@ int tok_none(struct tokenizer* state){
 	} else if (c == '@'){
 		state->cursor++;
 		tok_with_condition(state, is_name);
-		if (state->tokens[state->token_i].len > 16){
+		if (state->cursor - state->tokens[state->token_i].ofs > 16){
 			return ERR_LABEL_TOO_LONG;
 		}
 		state->tokens[state->token_i].type = label;
@@ -1368,7 +1368,7 @@ int tok_label(struct tokenizer* state){
 		}
 		tok_with_condition(state, is_name);
 		state->tokens[state->token_i].type = label;
-		if (state->tokens[state->token_i].len > 16){
+		if (state->cursor - state->tokens[state->token_i].ofs > 16){
 			return ERR_LABEL_TOO_LONG;
 	}
 	return ERR_NONE;
@@ -1376,6 +1376,12 @@ int tok_label(struct tokenizer* state){
 
 int tok_name(struct tokenizer* state){
 	tok_with_condition(state, is_varname);
+	// Names are limited in size, not including the type suffix
+	u32 name_len = state->cursor - state->tokens[state->token_i].ofs;
+	if (state->source->data[state->cursor-1] == '$') --name_len;
+	if (name_len > VAR_NAME_MAX_LENGTH){
+		return ERR_VARIABLE_CREATION_FAIL;
+	}
 	//additional checking for special strings
 	int index;
 	int err = ERR_NONE;
-- 
2.43.0


From 75f783e4c30a85567bf33a2ee8976da2ae239d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:47 +0000
Subject: [PATCH 023/127] fix: literals and DATA longer than 255 characters
 were cut and misread

---
 source/interpreter/tokens.c | 33 ++++++++++++++++++++++++++-------
 source/interpreter/tokens.h |  6 +++---
 2 files changed, 29 insertions(+), 10 deletions(-)

diff --git a/source/interpreter/tokens.c b/source/interpreter/tokens.c
index e67e82a..0e7e4aa 100644
--- a/source/interpreter/tokens.c
+++ b/source/interpreter/tokens.c
@@ -660,6 +660,11 @@ int tok_data(struct tokenizer* state, struct token start_t, char* data, idx* siz
 //	} // skip to first non-whitespace
 	int end = state->cursor;
 
+	// Contents must fit into a single instruction
+	if (end - start > UINT8_MAX){
+		return ERR_STRING_TOO_LONG;
+	}
+
 	data[(*size)++] = BC_DATA;
 	char* data_size = &data[(*size)++]; // write as copying characters
 	*data_size = 0;
@@ -754,7 +759,8 @@ int tok_code(struct tokenizer* state){
 				bool first_of_line = state->tokens[i].type == first_of_line_command;
 				state->tokens[i].type = command;
 				if (state->tokens[i].cmd == CMD_DATA){
-					tok_data(state, state->tokens[i], data, size);
+					int data_res = tok_data(state, state->tokens[i], data, size);
+					if (data_res != ERR_NONE) return data_res;
 				} else {
 					// convert token to command
 	//				iprintf("command: %d, %d\n", j, state->tokens[i].cmd);
@@ -1320,11 +1326,11 @@ int tok_none(struct tokenizer* state){
 		//whitespace is ignored
 		state->cursor++;
 	} else if (c == '"'){
-		tok_string(state);
+		return tok_string(state);
 	} else if (c == '&') {
-		tok_base_number(state);
+		return tok_base_number(state);
 	} else if (is_number(c) || c == '.') {
-		tok_number(state);
+		return tok_number(state);
 	} else if (c == ',' || c == ';' || c == '+' || c == '-' || c == '*' || c == '/' || c == '%' ||
 			c == '(' || c == ')' || c == '[' || c == ']'){
 		tok_single(state, operation);
@@ -1414,7 +1420,7 @@ int tok_name(struct tokenizer* state){
 	return err;
 }
 
-void tok_string(struct tokenizer* state){
+int tok_string(struct tokenizer* state){
 //	iprintf("Entered string %d\n", state->cursor);
 	if (state->source->data[state->cursor] == '"'){
 		state->cursor++;
@@ -1428,14 +1434,19 @@ void tok_string(struct tokenizer* state){
 		state->tokens[state->token_i].len++;
 		state->cursor++;
 	}
+	// length must fit into a single byte
+	if (state->cursor - state->tokens[state->token_i].ofs > UINT8_MAX){
+		return ERR_STRING_TOO_LONG;
+	}
 	if (state->source->data[state->cursor] == '"'){
 		state->cursor++;
 	}
 	state->token_i++;
 //	iprintf("Exited string %d\n", state->token_i);
+	return ERR_NONE;
 }
 
-void tok_base_number(struct tokenizer* state){
+int tok_base_number(struct tokenizer* state){
 	state->tokens[state->token_i].type = base_number;
 	state->tokens[state->token_i].len = 2;
 	state->tokens[state->token_i].ofs = state->cursor;
@@ -1445,10 +1456,14 @@ void tok_base_number(struct tokenizer* state){
 		state->cursor++;
 	} while (is_number(state->source->data[state->cursor])
 	         || (state->source->data[state->cursor] >= 'A' && state->source->data[state->cursor] <= 'F'));
+	if (state->cursor - state->tokens[state->token_i].ofs > UINT8_MAX){
+		return ERR_OVERFLOW;
+	}
 	state->token_i++;
+	return ERR_NONE;
 }
 
-void tok_number(struct tokenizer* state){
+int tok_number(struct tokenizer* state){
 	state->tokens[state->token_i].type = number;
 	state->tokens[state->token_i].len = 0;
 	state->tokens[state->token_i].ofs = state->cursor;
@@ -1456,6 +1471,10 @@ void tok_number(struct tokenizer* state){
 		state->tokens[state->token_i].len++;
 		state->cursor++;
 	} while (is_number(state->source->data[state->cursor]) || state->source->data[state->cursor] == '.');
+	if (state->cursor - state->tokens[state->token_i].ofs > UINT8_MAX){
+		return ERR_OVERFLOW;
+	}
 	state->token_i++;
+	return ERR_NONE;
 }
 
diff --git a/source/interpreter/tokens.h b/source/interpreter/tokens.h
index 9fc917a..9c60e6a 100644
--- a/source/interpreter/tokens.h
+++ b/source/interpreter/tokens.h
@@ -123,9 +123,9 @@ int tok_none(struct tokenizer* state);
 
 int tok_name(struct tokenizer* state);
 
-void tok_string(struct tokenizer* state);
+int tok_string(struct tokenizer* state);
 
-void tok_number(struct tokenizer* state);
+int tok_number(struct tokenizer* state);
 
 int tok_convert(struct tokenizer* state);
 
@@ -141,7 +141,7 @@ bool check_cmd(const char* stack, int stack_len, const char* valid);
 /// Returns error code
 int tok_test(struct tokenizer* state);
 
-void tok_base_number(struct tokenizer* state);
+int tok_base_number(struct tokenizer* state);
 
 // debug
 void print_token(struct tokenizer* state, struct token t);
-- 
2.43.0


From 1854bd02fdcf4aed4534fc67e40d01a3f0fbb3b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:25 +0000
Subject: [PATCH 024/127] fix: lines with too many tokens or unbalanced
 brackets overran the tokenizer's buffers

---
 source/interpreter/tokens.c | 49 +++++++++++++++++++++++++++++--------
 source/interpreter/tokens.h |  4 +--
 2 files changed, 41 insertions(+), 12 deletions(-)

diff --git a/source/interpreter/tokens.c b/source/interpreter/tokens.c
index 0e7e4aa..8bd258f 100644
--- a/source/interpreter/tokens.c
+++ b/source/interpreter/tokens.c
@@ -324,9 +324,11 @@ int tok_convert(struct tokenizer* state){
 		}
 	}
 	
-	tok_prio(state);
+	int prio_res = tok_prio(state);
+	if (prio_res != ERR_NONE) return prio_res;
 	
-	tok_eval(state);
+	int eval_res = tok_eval(state);
+	if (eval_res != ERR_NONE) return eval_res;
 	
 	int test_res = tok_test(state);
 	if (test_res != ERR_NONE) return test_res;
@@ -454,7 +456,7 @@ bool check_cmd(const char* stack, int stack_len, const char* valid){
 
 int tok_test(struct tokenizer* state){
 	// This is argument count and argument type validation.
-	char stack[40];
+	char stack[TOKENS_LINE_MAX+1];
 	u8 stack_i = 0;
 	int argc = 0;
 	stack[0] = 0; // Fixes undefined reads detected via -fanalyzer
@@ -549,6 +551,9 @@ int tok_test(struct tokenizer* state){
 				break;
 				
 			case function:
+				if (argc > stack_i){
+					return ERR_TEST_FUNCTION; // some arguments are missing
+				}
 				if (argc){
 					stack_i -= argc;
 				}
@@ -567,6 +572,9 @@ int tok_test(struct tokenizer* state){
 				
 			case array_name:
 			case name:
+				if (argc > stack_i){
+					return ERR_TEST_ARRAY; // some arguments are missing
+				}
 				if (argc){
 					// process argc counts first
 					const char* arr_valid = "N,NN";
@@ -589,6 +597,9 @@ int tok_test(struct tokenizer* state){
 				break;
 				
 			case dim_arr:
+				if (argc > stack_i){
+					return ERR_TEST_ARRAY; // some arguments are missing
+				}
 				if (argc){
 					// process argc counts first
 					const char* dim_valid = "N,NN";
@@ -963,15 +974,15 @@ int tok_code(struct tokenizer* state){
 /// exclusively within tok_eval.
 struct eval {
 	//value and op could be combined maybe
-	struct token* value_stack[100];
+	struct token* value_stack[TOKENS_LINE_MAX];
 	u8 value_i;
-	struct token* op_stack[100];
+	struct token* op_stack[TOKENS_LINE_MAX];
 	u8 op_i;
 	/// Arguments stack
-	u8 argc_stack[64];
+	u8 argc_stack[TOKENS_LINE_MAX+1];
 	u8 argc_i;
-	// reordered tokens for conversion
-	struct token result[100];
+	// reordered tokens for conversion (including ones added while reordering)
+	struct token result[2*TOKENS_LINE_MAX];
 	u8 result_i; // first unused entry
 };
 
@@ -991,7 +1002,7 @@ void tok_eval_clean_stack(struct eval* e, u16 prio){
 // This one is infinitely less bad than than the PTC-EmkII attempt. :)
 // That one was awful. Go look at it if you want to laugh at bad code.
 // I'm still amazed it worked in the end.
-void tok_eval(struct tokenizer* state){
+int tok_eval(struct tokenizer* state){
 	struct eval e = {0};
 	bool is_for = false;
 	bool is_dim = false;
@@ -1190,14 +1201,18 @@ void tok_eval(struct tokenizer* state){
 		print_token(state, e.result[i]);
 	}
 	
+	if (e.result_i > TOKENS_LINE_MAX){
+		return ERR_OUT_OF_MEMORY; // line is too long
+	}
 	for (size_t i = 0; i < e.result_i; ++i){
 		state->tokens[i] = e.result[i];
 	}
 	state->token_i = e.result_i;
+	return ERR_NONE;
 }
 
 // take one line (to /r) and calculate priorities of tokens
-void tok_prio(struct tokenizer* state){
+int tok_prio(struct tokenizer* state){
 	int nest = 0;
 	for (size_t i = 0; i < state->token_i; i += 1){
 		if (state->tokens[i].type == operation){
@@ -1262,14 +1277,23 @@ void tok_prio(struct tokenizer* state){
 				case OP_CLOSE_PAREN:
 					state->tokens[i].prio = nest;
 					nest -= 8;
+					if (nest < 0){
+						return ERR_SYNTAX; // nothing to close
+					}
 					break;
 			}
+		} else if (state->tokens[i].type == newline){
+			if (nest){
+				return ERR_SYNTAX; // something was not closed in this statement
+			}
+			state->tokens[i].prio = 0;
 		} else if (state->tokens[i].type == function){
 			state->tokens[i].prio = nest + 7;
 		} else {
 			state->tokens[i].prio = 0;
 		}
 	}
+	return ERR_NONE;
 }
 
 //only needed for operations and a few others
@@ -1312,6 +1336,11 @@ int tok_none(struct tokenizer* state){
 		return ERR_NONE;
 	}
 	
+	// the last token of a line is reserved for its end
+	if (state->token_i >= TOKENS_LINE_MAX-1 && c != ' ' && c != '\''){
+		return ERR_OUT_OF_MEMORY;
+	}
+
 	if (is_name_start(c)){
 		return tok_name(state);
 	} else if (c == '?'){
diff --git a/source/interpreter/tokens.h b/source/interpreter/tokens.h
index 9c60e6a..0d1225e 100644
--- a/source/interpreter/tokens.h
+++ b/source/interpreter/tokens.h
@@ -129,9 +129,9 @@ int tok_number(struct tokenizer* state);
 
 int tok_convert(struct tokenizer* state);
 
-void tok_prio(struct tokenizer* state);
+int tok_prio(struct tokenizer* state);
 
-void tok_eval(struct tokenizer* state);
+int tok_eval(struct tokenizer* state);
 
 int tok_code(struct tokenizer* state);
 
-- 
2.43.0


From e7e696f389e21ff802a19a1845799c261ddc1257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:55 +0000
Subject: [PATCH 025/127] fix: compiling read past the end of the text and
 swallowed line ends after errors

---
 source/interpreter/tokens.c | 69 ++++++++++++++++++++++++-------------
 1 file changed, 45 insertions(+), 24 deletions(-)

diff --git a/source/interpreter/tokens.c b/source/interpreter/tokens.c
index 8bd258f..f475972 100644
--- a/source/interpreter/tokens.c
+++ b/source/interpreter/tokens.c
@@ -147,6 +147,11 @@ const char* op_format[] = {
 };
 
 
+/// Character of the program source. The end of the text also ends the last line.
+static inline char src_char(struct tokenizer* state, u32 pos){
+	return pos < state->source->size ? state->source->data[pos] : '\r';
+}
+
 // Note: Expects null-terminated string
 int tok_in_str_index(const char* str, const char* data, struct token* tok){
 	int index;
@@ -192,7 +197,7 @@ void print_token(struct tokenizer* state, struct token t){
 			iprintf("        ");
 		}
 		for (size_t c = 0; c < t.len; ++c){
-			char ch = state->source->data[t.ofs + c];
+			char ch = src_char(state, t.ofs + c);
 			if (ch == '\r'){
 				iprintf("\\r");
 			} else {
@@ -248,16 +253,19 @@ int tokenize_full(struct program* src, struct bytecode* out, void* system, int o
 	// Re-initialize bc
 	out->size = 0;
 	reset_label(&out->labels);
-	int old_cursor;
-	while (state.cursor < state.source->size){
-		old_cursor = state.cursor;
+	u32 line_cursor = 0; // start of the current line
+	// an unfinished last line is ended by the end of the text
+	while (state.cursor < state.source->size || state.token_i){
+		if (!state.cursor || state.source->data[state.cursor-1] == '\r'){
+			line_cursor = state.cursor;
+		}
 		error = tok_none(&state);
 		if (error != ERR_NONE){
 			if (opts & TOKOPT_STRICT_ERROR) break;
 			state.output->data[state.output->size++] = BC_ERROR;
 			state.output->data[state.output->size++] = error;
 			iprintf("Error at: %d\n", (int)state.output->size);
-			while (state.source->data[state.cursor++] != '\r');
+			while (src_char(&state, state.cursor++) != '\r');
 			error = ERR_NONE;
 			state.token_i = 0;
 			continue;
@@ -281,16 +289,19 @@ int tokenize_full(struct program* src, struct bytecode* out, void* system, int o
 	}
 	if (error) {
 		if (system){
-			int line_view = state.cursor - old_cursor;
-			line_view = line_view > 31 ? 31 : line_view;
-			memcpy(state.system->exec.error_info, &state.source->data[old_cursor], line_view);
-			state.system->exec.error_info[line_view+1] = '\0';
+			// show the beginning of the line with the error
+			u32 line_view = 0;
+			while (line_view < sizeof(state.system->exec.error_info)-1 && src_char(&state, line_cursor + line_view) != '\r'){
+				state.system->exec.error_info[line_view] = state.source->data[line_cursor + line_view];
+				++line_view;
+			}
+			state.system->exec.error_info[line_view] = '\0';
 		}
 		iprintf("tokenize error: %s\n", error_messages[error]);
 	}
 	
 	iprintf("Current tokens:\n");
-	for (size_t i = 0; i < 100; ++i){
+	for (size_t i = 0; i < TOKENS_LINE_MAX; ++i){
 		if (state.tokens[i].len == 0)
 			break;
 		print_token(&state, state.tokens[i]);
@@ -692,7 +703,7 @@ int tok_data(struct tokenizer* state, struct token start_t, char* data, idx* siz
 		BC_DATA_WAIT_NEXT,
 	} data_state = BC_DATA_NONE;
 	for (int j = start; j < end; ++j){
-		char c = state->source->data[j];
+		char c = src_char(state, j);
 
 		switch (data_state){
 			case BC_DATA_NONE:
@@ -1313,7 +1324,7 @@ void tok_with_condition(struct tokenizer* state, bool(*condition)(char)){
 	do {
 		state->tokens[state->token_i].len++;
 		state->cursor++;
-		c = state->source->data[state->cursor];
+		c = src_char(state, state->cursor);
 	} while (condition(c));
 }
 
@@ -1321,7 +1332,7 @@ void tok_with_condition(struct tokenizer* state, bool(*condition)(char)){
 int tok_none(struct tokenizer* state){
 	// This state represents: Whitespace and default state
 	// This state can transition to:
-	char c = state->source->data[state->cursor];
+	char c = src_char(state, state->cursor);
 	
 	if (c == '\r'){
 		tok_single(state, newline);
@@ -1367,13 +1378,16 @@ int tok_none(struct tokenizer* state){
 	} else if (c == '<' || c == '=' || c == '>' || c == '!'){
 		tok_single(state, operation);
 		// check for <= == >= !=
-		if (state->source->data[state->cursor] == '='){
+		if (src_char(state, state->cursor) == '='){
 			state->tokens[state->token_i - 1].len++;
 			state->cursor++;
 		}
 		state->tokens[state->token_i-1].cmd = tok_in_str_index(bc_conv_operations, state->source->data, &state->tokens[state->token_i-1]);
 	} else if (c == '@'){
 		state->cursor++;
+		if (!is_name(src_char(state, state->cursor))){
+			return ERR_SYNTAX;
+		}
 		tok_with_condition(state, is_name);
 		if (state->cursor - state->tokens[state->token_i].ofs > 16){
 			return ERR_LABEL_TOO_LONG;
@@ -1392,13 +1406,13 @@ int tok_none(struct tokenizer* state){
 }
 
 int tok_label(struct tokenizer* state){
-	if (state->source->data[state->cursor++] != ' '){
+	if (src_char(state, state->cursor) != ' '){
 			return ERR_SYNTAX;
 		}
-		while (state->source->data[state->cursor] == ' '){
+		while (src_char(state, state->cursor) == ' '){
 			state->cursor++;
 		}
-		if (!is_name(state->source->data[state->cursor])){
+		if (!is_name(src_char(state, state->cursor))){
 			return ERR_SYNTAX;
 		}
 		tok_with_condition(state, is_name);
@@ -1451,15 +1465,15 @@ int tok_name(struct tokenizer* state){
 
 int tok_string(struct tokenizer* state){
 //	iprintf("Entered string %d\n", state->cursor);
-	if (state->source->data[state->cursor] == '"'){
+	if (src_char(state, state->cursor) == '"'){
 		state->cursor++;
 	}
 	
 	state->tokens[state->token_i].type = string;
 	state->tokens[state->token_i].len = 0;
 	state->tokens[state->token_i].ofs = state->cursor;
-	while (state->source->data[state->cursor] != '"' &&
-			state->source->data[state->cursor] != '\r'){
+	while (src_char(state, state->cursor) != '"' &&
+			src_char(state, state->cursor) != '\r'){
 		state->tokens[state->token_i].len++;
 		state->cursor++;
 	}
@@ -1467,7 +1481,7 @@ int tok_string(struct tokenizer* state){
 	if (state->cursor - state->tokens[state->token_i].ofs > UINT8_MAX){
 		return ERR_STRING_TOO_LONG;
 	}
-	if (state->source->data[state->cursor] == '"'){
+	if (src_char(state, state->cursor) == '"'){
 		state->cursor++;
 	}
 	state->token_i++;
@@ -1479,12 +1493,19 @@ int tok_base_number(struct tokenizer* state){
 	state->tokens[state->token_i].type = base_number;
 	state->tokens[state->token_i].len = 2;
 	state->tokens[state->token_i].ofs = state->cursor;
+	char base = src_char(state, state->cursor+1);
+	if (base != 'H' && base != 'B'){
+		return ERR_SYNTAX;
+	}
 	state->cursor += 2;
+	if (src_char(state, state->cursor) == '\r'){
+		return ERR_SYNTAX; // no digits
+	}
 	do {
 		state->tokens[state->token_i].len++;
 		state->cursor++;
-	} while (is_number(state->source->data[state->cursor])
-	         || (state->source->data[state->cursor] >= 'A' && state->source->data[state->cursor] <= 'F'));
+	} while (is_number(src_char(state, state->cursor))
+	         || (src_char(state, state->cursor) >= 'A' && src_char(state, state->cursor) <= 'F'));
 	if (state->cursor - state->tokens[state->token_i].ofs > UINT8_MAX){
 		return ERR_OVERFLOW;
 	}
@@ -1499,7 +1520,7 @@ int tok_number(struct tokenizer* state){
 	do {
 		state->tokens[state->token_i].len++;
 		state->cursor++;
-	} while (is_number(state->source->data[state->cursor]) || state->source->data[state->cursor] == '.');
+	} while (is_number(src_char(state, state->cursor)) || src_char(state, state->cursor) == '.');
 	if (state->cursor - state->tokens[state->token_i].ofs > UINT8_MAX){
 		return ERR_OVERFLOW;
 	}
-- 
2.43.0


From 07e60fa5602fa01c3c58a7cd3410579b653e7dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:43 +0000
Subject: [PATCH 026/127] fix: compiling long programs overran the code and
 line buffers

---
 source/interpreter/label.c   |  2 +-
 source/interpreter/label.h   |  3 ++
 source/interpreter/program.c |  4 +++
 source/interpreter/tokens.c  | 70 +++++++++++++++++++++++++++++++++---
 4 files changed, 73 insertions(+), 6 deletions(-)

diff --git a/source/interpreter/label.c b/source/interpreter/label.c
index bcb393c..5045c2b 100644
--- a/source/interpreter/label.c
+++ b/source/interpreter/label.c
@@ -10,7 +10,7 @@
 
 struct labels init_labels(int label_count){
 	assert((label_count & (label_count - 1)) == 0); // 2^n
-	struct labels l;
+	struct labels l = {0};
 	l.label_count = label_count;
 	if (label_count){
 		l.entry = calloc_log("init_labels", sizeof(struct label_line), label_count);
diff --git a/source/interpreter/label.h b/source/interpreter/label.h
index 1f41736..9d23d4a 100644
--- a/source/interpreter/label.h
+++ b/source/interpreter/label.h
@@ -31,6 +31,9 @@ struct labels {
 	/// List of label -> index pairs.
 	struct label_line* entry;
 //	struct label_line entry[MAX_LABELS];
+	/// Size of the code the labels belong to, in bytes and lines (zero if not known)
+	idx code_max;
+	idx lines_max;
 };
 
 struct labels init_labels(int);
diff --git a/source/interpreter/program.c b/source/interpreter/program.c
index a176408..5e2241e 100644
--- a/source/interpreter/program.c
+++ b/source/interpreter/program.c
@@ -27,6 +27,8 @@ struct bytecode init_bytecode(void){
 		calloc_log("init_bytecode", 1, MAX_LINES),
 		init_labels(MAX_LABELS)
 	};
+	bc.labels.code_max = MAX_SOURCE_SIZE;
+	bc.labels.lines_max = MAX_LINES;
 	assert(bc.data);
 	assert(bc.line_length);
 	assert(bc.labels.entry);
@@ -42,6 +44,8 @@ struct bytecode init_bytecode_size(int size, int lines, int labels){
 		calloc_log("init_bytecode", 1, lines),
 		init_labels(labels)
 	};
+	bc.labels.code_max = size;
+	bc.labels.lines_max = lines;
 	assert(bc.data);
 	assert(bc.line_length);
 	assert(bc.labels.entry || !labels);
diff --git a/source/interpreter/tokens.c b/source/interpreter/tokens.c
index f475972..a93cb59 100644
--- a/source/interpreter/tokens.c
+++ b/source/interpreter/tokens.c
@@ -228,6 +228,16 @@ int tokenize(struct program* src, struct bytecode* out){
 	return tokenize_full(src, out, NULL, 0);
 }
 
+/// Adds an error to the code, to be reported when execution reaches it.
+static bool add_error(struct bytecode* out, int error){
+	if (out->labels.code_max && out->labels.code_max - out->size < 2){
+		return false;
+	}
+	out->data[out->size++] = BC_ERROR;
+	out->data[out->size++] = error;
+	return true;
+}
+
 int tokenize_full(struct program* src, struct bytecode* out, void* system, int opts){
 	struct tokenizer state = {0};
 	state.source = src;
@@ -262,8 +272,10 @@ int tokenize_full(struct program* src, struct bytecode* out, void* system, int o
 		error = tok_none(&state);
 		if (error != ERR_NONE){
 			if (opts & TOKOPT_STRICT_ERROR) break;
-			state.output->data[state.output->size++] = BC_ERROR;
-			state.output->data[state.output->size++] = error;
+			if (!add_error(state.output, error)){
+				error = ERR_OUT_OF_MEMORY;
+				break;
+			}
 			iprintf("Error at: %d\n", (int)state.output->size);
 			while (src_char(&state, state.cursor++) != '\r');
 			error = ERR_NONE;
@@ -279,8 +291,10 @@ int tokenize_full(struct program* src, struct bytecode* out, void* system, int o
 			error = tok_convert(&state);
 			if (error != ERR_NONE){
 				if (opts & TOKOPT_STRICT_ERROR) break;
-				state.output->data[state.output->size++] = BC_ERROR;
-				state.output->data[state.output->size++] = error;
+				if (!add_error(state.output, error)){
+					error = ERR_OUT_OF_MEMORY;
+					break;
+				}
 				error = ERR_NONE;
 				state.token_i = 0;
 				iprintf("Error at: %d\n", (int)state.output->size);
@@ -309,6 +323,48 @@ int tokenize_full(struct program* src, struct bytecode* out, void* system, int o
 	return error;
 }
 
+/// Size of an error in the code
+#define TOK_CODE_ERROR_SIZE 2
+
+/// Checks if the code of the current tokens fits into the output, leaving
+/// space for an error.
+bool code_fits(struct tokenizer* state){
+	if (!state->output->labels.code_max) return true; // size is not known
+	idx needed = TOK_CODE_ERROR_SIZE;
+	for (size_t i = 0; i < state->token_i; ++i){
+		switch (state->tokens[i].type){
+			case string:
+			case label:
+			case label_string:
+			case name:
+			case array_name:
+			case array_actual:
+			case dim_arr:
+				// instruction, length, content, padding
+				needed += 2 + state->tokens[i].len + 1;
+				break;
+			case number:
+			case base_number:
+				needed += 6;
+				break;
+			case command:
+			case first_of_line_command:
+				if (state->tokens[i].cmd == CMD_DATA){
+					needed += state->cursor - state->tokens[i].ofs + 1;
+				}
+				needed += 2;
+				break;
+			case sysvar:
+				needed += 4; // includes check of the value
+				break;
+			default:
+				needed += 2;
+				break;
+		}
+	}
+	return needed <= state->output->labels.code_max - state->output->size;
+}
+
 int tok_convert(struct tokenizer* state){
 	// conversion of line returns to reading characters when done
 	state->state = TKR_NONE;
@@ -345,11 +401,15 @@ int tok_convert(struct tokenizer* state){
 	if (test_res != ERR_NONE) return test_res;
 	
 	int line_begin = state->output->size;
+	if (!code_fits(state)) return ERR_OUT_OF_MEMORY;
 	int code_res = tok_code(state);
 	if (code_res != ERR_NONE) return code_res;
 	int line_end = state->output->size;
 	int line_length = line_end - line_begin;
-	state->output->line_length[state->lines_processed++] = line_length;
+	if (!state->output->labels.code_max || state->lines_processed < state->output->labels.lines_max){
+		state->output->line_length[state->lines_processed] = line_length;
+	}
+	state->lines_processed++;
 
 	return ERR_NONE;
 }
-- 
2.43.0


From b79ab8e9500b3d4baa2d85898db439d9968578fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:45 +0000
Subject: [PATCH 027/127] fix: part of a line that failed to compile was still
 executed

---
 source/interpreter/tokens.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/source/interpreter/tokens.c b/source/interpreter/tokens.c
index a93cb59..5c45e07 100644
--- a/source/interpreter/tokens.c
+++ b/source/interpreter/tokens.c
@@ -403,7 +403,11 @@ int tok_convert(struct tokenizer* state){
 	int line_begin = state->output->size;
 	if (!code_fits(state)) return ERR_OUT_OF_MEMORY;
 	int code_res = tok_code(state);
-	if (code_res != ERR_NONE) return code_res;
+	if (code_res != ERR_NONE){
+		// remove the part of the line that was already compiled
+		state->output->size = line_begin;
+		return code_res;
+	}
 	int line_end = state->output->size;
 	int line_length = line_end - line_begin;
 	if (!state->output->labels.code_max || state->lines_processed < state->output->labels.lines_max){
-- 
2.43.0


From a9faf69d49cbc2772185cc60bc0cb61ec3ef04b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:16 +0000
Subject: [PATCH 028/127] fix: RUN and EXEC kept loops and subroutines of the
 replaced program

---
 source/interpreter/runner.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/interpreter/runner.c b/source/interpreter/runner.c
index 616c21e..cddf3cf 100644
--- a/source/interpreter/runner.c
+++ b/source/interpreter/runner.c
@@ -605,6 +605,7 @@ void cmd_exec(struct ptc* p){
 	// error set if needed; otherwise, execute
 	// EXEC is called from run, so running happens naturally. Just reset the necessary values.
 	p->exec.index = 0; // beginning of program
+	p->calls.stack_i = 0; // loops and subroutines of the old code
 	p->exec.data_index = 0;
 	p->exec.data_offset = 0;
 	p->exec.argcount = 0;
@@ -619,6 +620,7 @@ void cmd_run(struct ptc* p){
 	// error set if needed; otherwise, execute
 	// EXEC is called from run, so running happens naturally. Just reset the necessary values.
 	p->exec.index = 0; // beginning of program
+	p->calls.stack_i = 0; // loops and subroutines of the old code
 	p->exec.data_index = 0;
 	p->exec.data_offset = 0;
 	p->exec.argcount = 0;
-- 
2.43.0


From a70567d569886798b02042407dcd7a96d762183f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:00 +0000
Subject: [PATCH 029/127] fix: names beginning with an eight letter keyword
 were taken for it

---
 source/interpreter/tokens.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/interpreter/tokens.c b/source/interpreter/tokens.c
index 5c45e07..a54b92a 100644
--- a/source/interpreter/tokens.c
+++ b/source/interpreter/tokens.c
@@ -156,6 +156,9 @@ static inline char src_char(struct tokenizer* state, u32 pos){
 int tok_in_str_index(const char* str, const char* data, struct token* tok){
 	int index;
 	size_t start = 0;
+	if (tok->len > MAX_SPECIAL_NAME_SIZE){
+		return -1; // would match parts of several names
+	}
 	do {
 		index = start / MAX_SPECIAL_NAME_SIZE;
 		for (size_t i = 0; i < tok->len; ++i){
-- 
2.43.0


From c59235d9ab0f0a3c5c0e81258a3c649ef471d7ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:00 +0000
Subject: [PATCH 030/127] fix: FREEVAR counted an array again when it was
 redefined after CLEAR

---
 source/interpreter/vars.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/interpreter/vars.c b/source/interpreter/vars.c
index b4daee3..e441d9d 100644
--- a/source/interpreter/vars.c
+++ b/source/interpreter/vars.c
@@ -97,7 +97,9 @@ struct named_var* get_new_arr_var(struct variables* v, char* name, u32 len, enum
 			v->error = ERR_OUT_OF_MEMORY;
 			return NULL;
 		}
-		++v->var_count;
+		if (var->type == VAR_EMPTY){
+			++v->var_count;
+		}
 		// set var type
 		var->type = type;
 		
-- 
2.43.0


From f5c8886c673a3ce13517cff6fe00ee2c632cc2d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:02 +0000
Subject: [PATCH 031/127] fix: an array could not be dimensioned after its
 first use ran out of memory

---
 source/interpreter/vars.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/interpreter/vars.c b/source/interpreter/vars.c
index e441d9d..baed8e7 100644
--- a/source/interpreter/vars.c
+++ b/source/interpreter/vars.c
@@ -90,8 +90,8 @@ struct named_var* get_new_arr_var(struct variables* v, char* name, u32 len, enum
 	// make new array type
 	//if VAR_EMPTY then create it?
 	// Or if value was CLEARed, so it is OK to re-generate array
-	if (var->type == VAR_EMPTY
-		|| (v->clear_values && var->value.ptr == NULL)){
+	// (or if there was no memory for it)
+	if (var->type == VAR_EMPTY || var->value.ptr == NULL){
 		void* arr = get_init_new_arr(v->arrs, dim1, dim2, type);
 		if (!arr){
 			v->error = ERR_OUT_OF_MEMORY;
-- 
2.43.0


From ee8e8a271aebe0b0d256b6a9a5698c39ff2ac521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:45 +0000
Subject: [PATCH 032/127] fix: one index into an array without elements
 accessed memory outside it

---
 source/interpreter/vars.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/interpreter/vars.c b/source/interpreter/vars.c
index baed8e7..ab58828 100644
--- a/source/interpreter/vars.c
+++ b/source/interpreter/vars.c
@@ -173,7 +173,7 @@ union value* get_arr_entry_via_ptr(struct variables* v, union value* arr, u32 ix
 	}
 	// array exists and is stored in ptr
 	if (ix < arr_size(arr->ptr, ARR_DIM1)){
-		if (iy == ARR_DIM2_UNUSED){
+		if (iy == ARR_DIM2_UNUSED && arr_size(arr->ptr, ARR_DIM2) != 0){
 			return arr_entry(arr->ptr, ix, 0);
 		} else if (arr_size(arr->ptr, ARR_DIM2) != ARR_DIM2_UNUSED && iy < arr_size(arr->ptr, ARR_DIM2)){
 			return arr_entry(arr->ptr, ix, iy);
-- 
2.43.0


From d5674b51b6cf04875afc42c72dad8bb0694784ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:57 +0000
Subject: [PATCH 033/127] fix: an array with empty brackets was taken for the
 variable of that name

---
 source/interpreter/tokens.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/interpreter/tokens.c b/source/interpreter/tokens.c
index a54b92a..10102a6 100644
--- a/source/interpreter/tokens.c
+++ b/source/interpreter/tokens.c
@@ -650,7 +650,7 @@ int tok_test(struct tokenizer* state){
 				
 			case array_name:
 			case name:
-				if (argc > stack_i){
+				if (argc > stack_i || (!argc && state->tokens[i].type == array_name)){
 					return ERR_TEST_ARRAY; // some arguments are missing
 				}
 				if (argc){
@@ -675,7 +675,7 @@ int tok_test(struct tokenizer* state){
 				break;
 				
 			case dim_arr:
-				if (argc > stack_i){
+				if (argc > stack_i || !argc){
 					return ERR_TEST_ARRAY; // some arguments are missing
 				}
 				if (argc){
-- 
2.43.0


From 3f1c126ec564f7c6fa0070262d7f961f53aa87f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:03 +0000
Subject: [PATCH 034/127] fix: &H and &B numbers with more than 20 bits lost
 digits instead of overflowing

---
 source/interpreter/strfuncs.c | 6 +++++-
 source/interpreter/strs.c     | 4 ++--
 source/interpreter/tokens.c   | 4 ++--
 3 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/source/interpreter/strfuncs.c b/source/interpreter/strfuncs.c
index ba50223..1eb4e27 100644
--- a/source/interpreter/strfuncs.c
+++ b/source/interpreter/strfuncs.c
@@ -72,7 +72,11 @@ void func_val(struct ptc* p){
 		} else {
 			ERROR(ERR_SYNTAX);
 		}
-		v = u8_to_number(num_str + 2, len-2, base, false);
+		int64_t n = u8_to_number(num_str + 2, len-2, base, false);
+		if (n > UINT32_MAX){
+			ERROR(ERR_OVERFLOW);
+		}
+		v = n;
 	} else {
 		int64_t n = u8_to_num(num_str, len);
 		if (n < INT32_MIN || n > INT32_MAX){
diff --git a/source/interpreter/strs.c b/source/interpreter/strs.c
index 9d6f883..baaf148 100644
--- a/source/interpreter/strs.c
+++ b/source/interpreter/strs.c
@@ -209,8 +209,8 @@ int64_t str_to_number(const void* str, const int base, const bool allow_decimal)
 			// Stop reading on invalid character (useful for VAL)
 			break;
 		}
-		if (number > 524288){
-			break;
+		if (number > 1048575){
+			break; // out of range in every base
 		}
 	}
 	
diff --git a/source/interpreter/tokens.c b/source/interpreter/tokens.c
index 10102a6..9c18d4f 100644
--- a/source/interpreter/tokens.c
+++ b/source/interpreter/tokens.c
@@ -871,8 +871,8 @@ int tok_code(struct tokenizer* state){
 				
 			number_common:
 //				iprintf("full: %lx\n", n);
-				if (n > INT32_MAX && state->tokens[i].type == number){
-					// this is not an error for &H or &B, but is for number
+				if (n > (state->tokens[i].type == number ? INT32_MAX : UINT32_MAX)){
+					// the sign bit can be set by &H or &B, but not by number
 					return ERR_OVERFLOW;
 				}
 				if (n >= 0 && n < INT_TO_FP(100) && n == (n & (fixp)0xfffff000)){
-- 
2.43.0


From 446656dcede94e85529fbe8e9db2c7cff73318cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:28 +0000
Subject: [PATCH 035/127] fix: string operations crashed or lost a string when
 out of memory

---
 source/extension/sbc_memory.c  |  1 +
 source/interpreter/operators.c | 18 +++++++++++-------
 source/interpreter/strfuncs.c  |  7 ++++++-
 source/subsystem/sysvars.c     |  2 ++
 4 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/source/extension/sbc_memory.c b/source/extension/sbc_memory.c
index 1752027..cc411d4 100644
--- a/source/extension/sbc_memory.c
+++ b/source/extension/sbc_memory.c
@@ -300,6 +300,7 @@ void func_addr(struct ptc* p){
 
 void func_ptr(struct ptc* p){
 	struct string* out_str = get_new_str(&p->strs);
+	if (!out_str) ERROR(ERR_OUT_OF_MEMORY);
 	
 	fixp ptr = STACK_REL_NUM(-1);
 	--p->stack.stack_i;
diff --git a/source/interpreter/operators.c b/source/interpreter/operators.c
index 9fb3fde..fabffb8 100644
--- a/source/interpreter/operators.c
+++ b/source/interpreter/operators.c
@@ -33,13 +33,14 @@ void op_add(struct ptc* p){
 		struct string* z = get_new_str(&p->strs);
 		struct string* x = value_str(a);
 		struct string* y = value_str(b);
-		z->uses = 1;
 		
 		if (str_len(x) + str_len(y) > MAX_STRLEN){
 			ERROR(ERR_STRING_TOO_LONG);
 		}
+		if (!z) ERROR(ERR_OUT_OF_MEMORY);
 		
 		str_concat(x, y, z);
+		z->uses = 1;
 		
 		stack_push(s, (struct stack_entry){VAR_STRING, {.ptr = z}});
 	}
@@ -79,12 +80,14 @@ void op_mult(struct ptc* p){
 		struct string* y = get_new_str(&p->strs);
 		struct string* x = value_str(a);
 		
-		y->uses = 1;
-		y->len = 0; // start empty
-		if (count * str_len(x) > MAX_STRLEN){
+		if (str_len(x) && count > (int)(MAX_STRLEN / str_len(x))){
 			p->exec.error = ERR_STRING_TOO_LONG;
 			return;
 		}
+		if (!y) ERROR(ERR_OUT_OF_MEMORY);
+		if (!str_len(x)) count = 0; // nothing to repeat
+		y->uses = 1;
+		y->len = 0; // start empty
 		
 		for (int i = 0; i < count; ++i){
 			str_concat(y, x, y);
@@ -152,6 +155,10 @@ void op_assign(struct ptc* p){
 		assert(*dest); // must contain a valid string already
 		// char dest_old_type = (*dest)->type;
 		
+		if (!new_alloc && (src->type == BC_STRING || src == &p->res.mem_str)){
+			ERROR(ERR_OUT_OF_MEMORY); // failed to alloc string; dest keeps its value
+		}
+		
 		if (is_dyn_str(*dest)){
 			// dest is dynamic: we replace it here, so reduce uses count
 			(*dest)->uses--;
@@ -162,9 +169,6 @@ void op_assign(struct ptc* p){
 			*dest = src;
 			(*dest)->uses++;
 		} else if (src->type == BC_STRING){
-			if (!new_alloc) {
-				ERROR(ERR_OUT_OF_MEMORY); // failed to alloc string
-			}
 			str_copy(src, new_alloc);
 			++new_alloc->uses;
 			*dest = new_alloc;
diff --git a/source/interpreter/strfuncs.c b/source/interpreter/strfuncs.c
index 1eb4e27..62d1c87 100644
--- a/source/interpreter/strfuncs.c
+++ b/source/interpreter/strfuncs.c
@@ -40,6 +40,7 @@ void func_mid(struct ptc* p){
 	} else if (max_len <= (s16)len){
 		len = max_len;
 	}
+	if (!dest) ERROR(ERR_OUT_OF_MEMORY);
 	
 	dest->uses = 1;
 	dest->len = len;
@@ -92,6 +93,7 @@ void func_str(struct ptc* p){
 	fixp n = STACK_REL_NUM(-1);
 	
 	struct string* s = get_new_str(&p->strs);
+	if (!s) ERROR(ERR_OUT_OF_MEMORY);
 	
 	fixp_to_str(n, s);
 	s->uses = 1;
@@ -179,8 +181,9 @@ void func_subst(struct ptc* p){
 	}
 	int repl_len = str_len(repl);
 	// actual copying
-	dest->uses = 1;
 	if (start + repl_len > MAX_STRLEN) ERROR(ERR_STRING_TOO_LONG);
+	if (!dest) ERROR(ERR_OUT_OF_MEMORY);
+	dest->uses = 1;
 
 	str_copy_buf(str_at(str, 0), dest->ptr.s, str_type(str) | (str_type(dest) << STR_COPY_DEST), start);
 //	iprintf("%s\n",dest->ptr.s);
@@ -224,6 +227,7 @@ void _func_substring(struct ptc* p, bool right){
 		return;
 	}
 	if (count > max_len) count = max_len;
+	if (!dest) ERROR(ERR_OUT_OF_MEMORY);
 
 	dest->uses = 1;
 	dest->len = count;
@@ -269,6 +273,7 @@ void func_hex(struct ptc* p){
 	if (digits){
 		num &= 0x0fffff >> 4*(5-digits);
 	}
+	if (!dest) ERROR(ERR_OUT_OF_MEMORY);
 	int len = 0;
 	// once again we can just force the type to work here. there will always be enough space.
 	dest->type = STRING_CHAR;
diff --git a/source/subsystem/sysvars.c b/source/subsystem/sysvars.c
index 5fd0eb4..d5c0350 100644
--- a/source/subsystem/sysvars.c
+++ b/source/subsystem/sysvars.c
@@ -47,6 +47,7 @@ void sys_date(struct ptc* p){
 	int year = tm->tm_year + 1900;
 	
 	struct string* str = get_new_str(&p->strs);
+	if (!str) ERROR(ERR_OUT_OF_MEMORY);
 	str->type = STRING_CHAR;
 	str->uses = 1;
 	str->len = 10;
@@ -75,6 +76,7 @@ void sys_time(struct ptc* p){
 	int sec = tm->tm_sec;
 	
 	struct string* str = get_new_str(&p->strs);
+	if (!str) ERROR(ERR_OUT_OF_MEMORY);
 	str->type = STRING_CHAR;
 	str->uses = 1;
 	str->len = 8;
-- 
2.43.0


From efdb465bd667112dd8d1b726cae33ee3be1fcb2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:28 +0000
Subject: [PATCH 036/127] fix: READ, CHRREAD and BGREAD leaked the replaced
 string and crashed when out of memory

---
 source/interpreter/data.c     | 10 ++++++----
 source/interpreter/strs.h     | 10 ++++++++++
 source/subsystem/background.c |  4 ++--
 source/subsystem/resources.c  |  6 ++++--
 4 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/source/interpreter/data.c b/source/interpreter/data.c
index a384d64..83d99b1 100644
--- a/source/interpreter/data.c
+++ b/source/interpreter/data.c
@@ -16,8 +16,10 @@ int read_one_u8(struct ptc* p, const u8* src, size_t len, struct stack_entry* de
 	if (dest->type == (VAR_VARIABLE | VAR_STRING)){
 		// Create new string
 		struct string* s = get_new_str(&p->strs);
-		// Remove a use if variable had a string aleady
-		value_str(dest);
+		if (!s){
+			p->exec.error = ERR_OUT_OF_MEMORY;
+			return READ_ONE_ERR;
+		}
 		
 		// create destination and copy characters
 		for (; i < len && src[i] != BC_DATA_DELIM; ++i){
@@ -29,8 +31,7 @@ int read_one_u8(struct ptc* p, const u8* src, size_t len, struct stack_entry* de
 		s->len = i - start;
 		
 		// Assign new string to variable
-		(*(struct string**)dest->value.ptr) = s;
-		s->uses = 1;
+		set_str_var(dest->value.ptr, s);
 	} else if (dest->type == (VAR_VARIABLE | VAR_NUMBER)){
 		u8 conversion[16] = {0}; // this buffer size is very arbitrary
 		// skip leading spaces, but only for numbers
@@ -104,6 +105,7 @@ void cmd_read(struct ptc* p){
 		
 		int read = read_one_u8(p, data_src, block_size - p->exec.data_offset, ARG(i));
 		if (read == READ_ONE_ERR){
+			if (p->exec.error) return;
 			ERROR(ERR_READ_FAILURE);
 		}
 		p->exec.data_offset += read;
diff --git a/source/interpreter/strs.h b/source/interpreter/strs.h
index 6bbddea..eb11cee 100644
--- a/source/interpreter/strs.h
+++ b/source/interpreter/strs.h
@@ -73,6 +73,16 @@ static inline bool is_dyn_str(struct string* s){
 	return s->type == STRING_CHAR || s->type == STRING_WIDE;
 }
 
+/// Stores a new string in a string variable, releasing its previous value
+static inline void set_str_var(void* var, struct string* s){
+	struct string** dest = (struct string**)var;
+	if (is_dyn_str(*dest)){
+		(*dest)->uses--;
+	}
+	*dest = s;
+	s->uses = 1;
+}
+
 /// Checks if character is a lowercase letter ('a'-'z')
 bool is_lower(char c);
 /// Checks if character is an uppercase letter ('A'-'Z')
diff --git a/source/subsystem/background.c b/source/subsystem/background.c
index a023580..4d88e54 100644
--- a/source/subsystem/background.c
+++ b/source/subsystem/background.c
@@ -228,6 +228,7 @@ void cmd_bgread(struct ptc* p){
 			*tile = INT_TO_FP(tiledata);
 		} else {
 			struct string* dest = get_new_str(&p->strs);
+			if (!dest) ERROR(ERR_OUT_OF_MEMORY);
 			void** tile = ARG(3)->value.ptr; // pointer to string (which is itself a pointer)
 //			fixp_to_str(INT_TO_FP(tiledata), dest);
 			dest->ptr.s[0] = hex_digits[(tiledata & 0xF000) >> 12];
@@ -235,8 +236,7 @@ void cmd_bgread(struct ptc* p){
 			dest->ptr.s[2] = hex_digits[(tiledata & 0x00F0) >> 4];
 			dest->ptr.s[3] = hex_digits[(tiledata & 0x000F) >> 0];
 			dest->len = 4;
-			dest->uses = 1;
-			*tile = dest;
+			set_str_var(tile, dest);
 		}
 	} else {
 		fixp* chr = ARG(3)->value.ptr;
diff --git a/source/subsystem/resources.c b/source/subsystem/resources.c
index 1f93206..6fd934e 100644
--- a/source/subsystem/resources.c
+++ b/source/subsystem/resources.c
@@ -907,6 +907,7 @@ void cmd_chrread(struct ptc* p){
 	if (p->exec.error) return; // something went wrong
 
 	if (TYPE_CHR == info.type_id){
+		if (!dest) ERROR(ERR_OUT_OF_MEMORY);
 		// resource is valid
 		u8* chr_data = (u8*)info.data + 32*id;
 		// convert this to string
@@ -919,8 +920,7 @@ void cmd_chrread(struct ptc* p){
 		}
 		dest->type = STRING_CHAR; // force smaller type is always safe
 		dest->len = 64;
-		dest->uses = 1;
-		*out = dest;
+		set_str_var(out, dest);
 	} else {
 		ERROR(ERR_INVALID_RESOURCE_TYPE);
 	}
@@ -1216,6 +1216,7 @@ void sys_result(struct ptc* p){
 
 void sys_package(struct ptc* p){
 	struct string* str = get_new_str(&p->strs);
+	if (!str) ERROR(ERR_OUT_OF_MEMORY);
 	str->type = STRING_CHAR;
 	str->uses = 1;
 	int i = 0;
@@ -1235,6 +1236,7 @@ void sys_package(struct ptc* p){
 
 void sys_prgname(struct ptc* p){
 	struct string* str = get_new_str(&p->strs);
+	if (!str) ERROR(ERR_OUT_OF_MEMORY);
 	str->type = STRING_CHAR;
 	str->uses = 1;
 	str->len = strlen(p->res.prgname);
-- 
2.43.0


From afffcb312ae2a4c4c5a447528cb94e8d9ce28da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:55 +0000
Subject: [PATCH 037/127] fix: statements ending in an error leaked their
 temporary strings

---
 source/interpreter/runner.c |  5 ++++-
 source/interpreter/vars.c   | 22 ++++++++++++++++++++++
 source/interpreter/vars.h   |  4 ++++
 3 files changed, 30 insertions(+), 1 deletion(-)

diff --git a/source/interpreter/runner.c b/source/interpreter/runner.c
index cddf3cf..8dc6084 100644
--- a/source/interpreter/runner.c
+++ b/source/interpreter/runner.c
@@ -576,8 +576,11 @@ ITCM_CODE void _run(struct bytecode code, struct ptc* p, bool init_exec) {
 	}
 
 	// store copy of exec state at exit
-	if (p->exec.error)
+	if (p->exec.error){
 		p->exec_old = p->exec;
+		// temporary strings of the failed statement are no longer needed
+		recount_str_uses(&p->vars);
+	}
 }
 
 void run(struct bytecode code, struct ptc* p){
diff --git a/source/interpreter/vars.c b/source/interpreter/vars.c
index ab58828..902a9d8 100644
--- a/source/interpreter/vars.c
+++ b/source/interpreter/vars.c
@@ -45,6 +45,28 @@ void reset_var(struct variables* v){
 	}
 }
 
+void recount_str_uses(struct variables* v){
+	reset_str(v->strs);
+	for (u32 i = 0; i < v->vars_max; ++i){
+		struct named_var* var = &v->vars[i];
+		if (!(var->type & VAR_STRING) || !var->value.ptr) continue;
+		
+		union value* values = &var->value;
+		u32 count = 1;
+		if (var->type & VAR_ARRAY){
+			values = arr_data(var->value.ptr);
+			count = arr_size(var->value.ptr, ARR_DIM1);
+			if (arr_size(var->value.ptr, ARR_DIM2) != ARR_DIM2_UNUSED){
+				count *= arr_size(var->value.ptr, ARR_DIM2);
+			}
+		}
+		for (u32 j = 0; j < count; ++j){
+			struct string* s = values[j].ptr;
+			if (is_dyn_str(s)) s->uses++;
+		}
+	}
+}
+
 /// Freee memory for vars
 void free_mem_var(struct variables* v){
 	free_log("free_mem_var", v->vars);
diff --git a/source/interpreter/vars.h b/source/interpreter/vars.h
index 47a5d17..e7fee54 100644
--- a/source/interpreter/vars.h
+++ b/source/interpreter/vars.h
@@ -85,6 +85,10 @@ void init_mem_var(struct variables* v, uint_fast16_t var_count);
 void reset_var(struct variables* v);
 void free_mem_var(struct variables* v);
 
+/// Recounts the uses of all strings by the variables and arrays, which frees
+/// the temporary strings of a statement that did not finish.
+void recount_str_uses(struct variables* v);
+
 // Expects null-terminated name
 struct named_var* test_var(struct variables* v, char*, enum types type);
 union value* test_arr(struct variables* v, char*, int index, enum types type);
-- 
2.43.0


From 0eb897720843828757df24b591901ea46a8dc575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:15 +0000
Subject: [PATCH 038/127] fix: MID$ with large arguments, SUBST$ with long
 results and INSTR before the string accessed memory outside strings

---
 source/interpreter/strfuncs.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/source/interpreter/strfuncs.c b/source/interpreter/strfuncs.c
index 62d1c87..49696f1 100644
--- a/source/interpreter/strfuncs.c
+++ b/source/interpreter/strfuncs.c
@@ -33,11 +33,11 @@ void func_mid(struct ptc* p){
 	STACK_REL_INT_MIN(-1,0,len);
 	s->stack_i -= 3;
 	
-	s16 max_len = (s16)str_len(str) - (s16)start;
+	int max_len = (int)str_len(str) - start;
 	if (max_len <= 0){
 		stack_push(&p->stack, (struct stack_entry){VAR_STRING, {.ptr = empty_str}});
 		return;
-	} else if (max_len <= (s16)len){
+	} else if (max_len <= len){
 		len = max_len;
 	}
 	if (!dest) ERROR(ERR_OUT_OF_MEMORY);
@@ -109,6 +109,7 @@ void func_instr(struct ptc* p){
 	if (p->exec.argcount == 3){
 		struct stack_entry* startv = stack_pop(s);
 		start = VALUE_INT(startv);
+		if (start < 0) ERROR(ERR_OUT_OF_RANGE);
 	}
 	struct stack_entry* substring = stack_pop(s);
 	struct stack_entry* string = stack_pop(s);
@@ -181,7 +182,9 @@ void func_subst(struct ptc* p){
 	}
 	int repl_len = str_len(repl);
 	// actual copying
-	if (start + repl_len > MAX_STRLEN) ERROR(ERR_STRING_TOO_LONG);
+	if (count > len - start) count = len - start;
+	int remaining = len - start - count;
+	if (start + repl_len + remaining > MAX_STRLEN) ERROR(ERR_STRING_TOO_LONG);
 	if (!dest) ERROR(ERR_OUT_OF_MEMORY);
 	dest->uses = 1;
 
@@ -189,7 +192,6 @@ void func_subst(struct ptc* p){
 //	iprintf("%s\n",dest->ptr.s);
 	str_copy_buf(str_at(repl, 0), str_at(dest, start), str_type(repl) | (str_type(dest) << STR_COPY_DEST), str_len(repl));
 //	iprintf("%s\n",dest->ptr.s);
-	int remaining = str_len(str)-start-count;
 	if (remaining > 0)
 		str_copy_buf(str_at(str, start+count), str_at(dest, start + str_len(repl)), str_type(str) | (str_type(dest) << STR_COPY_DEST), remaining);
 //	iprintf("%s\n",dest->ptr.s);
-- 
2.43.0


From 707024451d0380f5f8bd5f64906b1edc37ba87c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:18 +0000
Subject: [PATCH 039/127] fix: ASC, DTREAD and other character accesses of wide
 strings such as MEM$ returned the wrong codes

---
 source/interpreter/strfuncs.c | 16 ++++++++--------
 source/interpreter/strs.c     |  4 ++--
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/source/interpreter/strfuncs.c b/source/interpreter/strfuncs.c
index 49696f1..0b3a0f1 100644
--- a/source/interpreter/strfuncs.c
+++ b/source/interpreter/strfuncs.c
@@ -305,18 +305,18 @@ void cmd_dtread(struct ptc* p){
 		if (format[i] == '/' && c != '/') ERROR(ERR_SYNTAX);
 	}
 
-	*year = (*((u8*)str_at(date_str,0)) - '0') * 1000;
-	*year += (*((u8*)str_at(date_str,1)) - '0') * 100;
-	*year += (*((u8*)str_at(date_str,2)) - '0') * 10;
-	*year += (*((u8*)str_at(date_str,3)) - '0');
+	*year = (str_at_char(date_str,0) - '0') * 1000;
+	*year += (str_at_char(date_str,1) - '0') * 100;
+	*year += (str_at_char(date_str,2) - '0') * 10;
+	*year += (str_at_char(date_str,3) - '0');
 	*year <<= FIXPOINT;
 	
-	*month = (*((u8*)str_at(date_str,5)) - '0') * 10;
-	*month += (*((u8*)str_at(date_str,6)) - '0') * 1;
+	*month = (str_at_char(date_str,5) - '0') * 10;
+	*month += (str_at_char(date_str,6) - '0') * 1;
 	*month <<= FIXPOINT;
 	
-	*day = (*((u8*)str_at(date_str,8)) - '0') * 10;
-	*day += (*((u8*)str_at(date_str,9)) - '0') * 1;
+	*day = (str_at_char(date_str,8) - '0') * 10;
+	*day += (str_at_char(date_str,9) - '0') * 1;
 	*day <<= FIXPOINT;
 }
 
diff --git a/source/interpreter/strs.c b/source/interpreter/strs.c
index baaf148..9832863 100644
--- a/source/interpreter/strs.c
+++ b/source/interpreter/strs.c
@@ -524,14 +524,14 @@ u16 str_at_char(const void* src, const u16 index){
 		case STRING_CHAR:
 			return s->ptr.s[index];
 		case STRING_WIDE:
-			return s->ptr.w[index];
+			return (u8)to_char(s->ptr.w[index]);
 		case BC_LABEL_STRING:
 		case BC_LABEL:
 		case BC_STRING:
 		case STRING_INLINE_CHAR:
 			return ((u8*)src)[2+index];
 		case STRING_INLINE_WIDE:
-			return ((u16*)src)[1+index];
+			return (u8)to_char(((u16*)src)[1+index]);
 		default:
 			iprintf("Unimplemented/Not a valid string type! (str_at_char)\n");
 			abort();
-- 
2.43.0


From 05fc05947d4f6b519e200de4032433e661ed9d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:56 +0000
Subject: [PATCH 040/127] fix: read-only system variables could be used as
 targets and writable ones bypassed their range check

---
 source/interpreter/tokens.c | 47 +++++++++++++++++++++++--------------
 1 file changed, 29 insertions(+), 18 deletions(-)

diff --git a/source/interpreter/tokens.c b/source/interpreter/tokens.c
index 9c18d4f..bff6a6e 100644
--- a/source/interpreter/tokens.c
+++ b/source/interpreter/tokens.c
@@ -78,6 +78,8 @@ const char* comments = "REM     ";
 // n = number var
 // S = string
 // s = string var
+// w = writable number system variable (only assignable)
+// W = writable string system variable (only assignable)
 // A = array
 // a = array list [only SORT,RSORT should use this?]
 // v = variable list
@@ -139,7 +141,7 @@ const char func_return[] = "NNNNNNNN"
 
 const char* op_format[] = {
 	"NN,SS","*","NN","NN,SN","NN","*", //;
-	"nN,sS","N", //(-)
+	"nN,sS,wN,WS","N", //(-)
 	"NN,SS","NN,SS","NN,SS","NN,SS","NN,SS","NN,SS", //>=
 	"NN",//%
 	"NN","NN","NN","N","N",//!
@@ -458,7 +460,7 @@ bool check_cmd(const char* stack, int stack_len, const char* valid){
 		//TODO:PERF:NONE Check if refactoring this to use fallthrough is faster
 		switch (v){
 			case 'N':
-				if (s == 'N' || s == 'n') break;
+				if (s == 'N' || s == 'n' || s == 'w') break;
 				is_valid = false;
 				break;
 				
@@ -468,7 +470,7 @@ bool check_cmd(const char* stack, int stack_len, const char* valid){
 				break;
 				
 			case 'S':
-				if (s == 'S' || s == 's') break;
+				if (s == 'S' || s == 's' || s == 'W') break;
 				is_valid = false;
 				break;
 				
@@ -477,13 +479,19 @@ bool check_cmd(const char* stack, int stack_len, const char* valid){
 				is_valid = false;
 				break;
 				
+			case 'w':
+			case 'W':
+				if (s == v) break;
+				is_valid = false;
+				break;
+				
 			case 'L':
-				if (s == 'S' || s == 's' || s == 'L') break;
+				if (s == 'S' || s == 's' || s == 'W' || s == 'L') break;
 				is_valid = false;
 				break;
 				
 			case 'l':
-				if (s == 'S' || s == 's' || s == 'L' || s == '<') {
+				if (s == 'S' || s == 's' || s == 'W' || s == 'L' || s == '<') {
 					valid_i--; // read as many labels as needed
 					break;
 				}
@@ -532,6 +540,16 @@ bool check_cmd(const char* stack, int stack_len, const char* valid){
 	return is_valid;
 }
 
+/// Sysvars that allow assignment (and thus need validation)
+#define SYSVAR_NEEDS_VALIDATE (\
+		((uint64_t)1 << SYS_ICONPAGE) |\
+		((uint64_t)1 << SYS_ICONPMAX) |\
+		((uint64_t)1 << SYS_ICONPUSE) |\
+		((uint64_t)1 << SYS_TABSTEP) |\
+		((uint64_t)1 << SYS_MEM) |\
+		((uint64_t)1 << SYS_MEMSAFE)\
+	)
+
 int tok_test(struct tokenizer* state){
 	// This is argument count and argument type validation.
 	char stack[TOKENS_LINE_MAX+1];
@@ -604,7 +622,9 @@ int tok_test(struct tokenizer* state){
 							// these ones don't
 							stack[stack_i++] = 'N';
 						} else if (state->tokens[i].cmd != OP_ASSIGN){
-							stack[stack_i++] &= 0x5f;  //binary op returns value type of first argument. unless it's =, that doesn't return anything.
+							//binary op returns value type of first argument. unless it's =, that doesn't return anything.
+							char type = stack[stack_i];
+							stack[stack_i++] = (type == 's' || type == 'S' || type == 'W') ? 'S' : 'N';
 						}
 					}
 				} else {
@@ -696,11 +716,12 @@ int tok_test(struct tokenizer* state){
 			case sysvar:
 				{
 				u8 id = state->tokens[i].cmd;
+				bool writable = SYSVAR_NEEDS_VALIDATE & ((uint64_t)1 << id);
 				if (id == SYS_TIME || id == SYS_DATE || id == SYS_PRGNAME
 					|| id == SYS_PACKAGE || id == SYS_MEM){
-						stack[stack_i++] = 's';
+						stack[stack_i++] = writable ? 'W' : 'S';
 					} else {
-						stack[stack_i++] = 'n';
+						stack[stack_i++] = writable ? 'w' : 'N';
 					}
 				}
 				break;
@@ -1023,16 +1044,6 @@ int tok_code(struct tokenizer* state){
 	}
 	
 	// Validation must be placed at end to happen after assignment
-/// Sysvars that allow assignment (and thus need validation)
-#define SYSVAR_NEEDS_VALIDATE (\
-		(1 << SYS_ICONPAGE) |\
-		(1 << SYS_ICONPMAX) |\
-		(1 << SYS_ICONPUSE) |\
-		(1 << SYS_TABSTEP) |\
-		(1 << SYS_MEM) |\
-		((uint64_t)1 << SYS_MEMSAFE)\
-	)
-
 	if (sys_validate & SYSVAR_NEEDS_VALIDATE){
 		for (int i = 0; i < 64; ++i){
 			if (sys_validate & ((uint64_t)1 << i) & SYSVAR_NEEDS_VALIDATE){
-- 
2.43.0


From 4ec230e9b2376111a11b4dba8279bd2fcb51015f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:42 +0000
Subject: [PATCH 041/127] fix: FOR, TO and STEP accepted strings and system
 variables

---
 source/interpreter/tokens.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/interpreter/tokens.c b/source/interpreter/tokens.c
index bff6a6e..c57cfdf 100644
--- a/source/interpreter/tokens.c
+++ b/source/interpreter/tokens.c
@@ -93,7 +93,7 @@ const char* comments = "REM     ";
 // Note that everything is ordered from short to long.
 const char* cmd_format[] = {
 	"*","NN","N,NN","*", //DIM
-	"*","*","*","0,n", //NEXT
+	"n","N","NN","0,n", //NEXT
 	"N","*","*","*", //ENDIF
 	"L,l","L,l","N","0", //RETURN
 	"0","0", //STOP
-- 
2.43.0


From 395ea45709198bc1570f1325809360ed6c005650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:35 +0000
Subject: [PATCH 042/127] fix: ON GOTO/GOSUB misread string variables and
 leaked the labels not used

---
 source/interpreter/flow.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/source/interpreter/flow.c b/source/interpreter/flow.c
index 4277553..d5577fc 100644
--- a/source/interpreter/flow.c
+++ b/source/interpreter/flow.c
@@ -222,13 +222,17 @@ void cmd_goto_gosub(struct ptc* p, bool push_return){
 		// Rest of stack contains labels in order
 		int label_i = VALUE_INT(e);
 //		iprintf("%d,%d\n", (int)label_index, (int)p->stack.stack_i);
+		// None of the labels is needed after this
+		for (int i = 1; i < (int)p->stack.stack_i; ++i){
+			if (!(p->stack.entry[i].type & STACK_OP)) value_str(ARG(i));
+		}
 		if (label_i < 0 || label_i+1 >= (int)p->stack.stack_i){
 			return; // No jump: number is out of range
 		}
 		if (p->stack.entry[label_i+1].type & STACK_OP){
 			ERROR(ERR_SYNTAX); // label is missing from this slot
 		}
-		label = p->stack.entry[label_i+1].value.ptr;
+		label = VALUE_STR((&p->stack.entry[label_i+1]));
 	} else {
 		label = value_str(e); //value_str
 	}
-- 
2.43.0


From c476c8a78ab4ef8d36f8d4b19d1edc609798ad4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:52 +0000
Subject: [PATCH 043/127] fix: unsupported sound and talk statements leaked
 their string arguments

---
 source/interpreter/runner.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/interpreter/runner.c b/source/interpreter/runner.c
index 8dc6084..25c7d60 100644
--- a/source/interpreter/runner.c
+++ b/source/interpreter/runner.c
@@ -38,6 +38,9 @@ typedef void(*ptc_call)(struct ptc*);
 
 void ptc_stub(struct ptc* p){
 	// Stub function consumes all arguments and does nothing
+	for (int i = 0; i < p->stack.stack_i; ++i){
+		if (ARG(i)->type & VAR_STRING) value_str(ARG(i));
+	}
 	p->stack.stack_i = 0;
 }
 
-- 
2.43.0


From e6f6843f66956dbdca09d5fb48215e594ba658f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:47 +0000
Subject: [PATCH 044/127] fix: COLINIT with an index read it from a missing
 argument

---
 source/subsystem/resources.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/source/subsystem/resources.c b/source/subsystem/resources.c
index 6fd934e..2248aaa 100644
--- a/source/subsystem/resources.c
+++ b/source/subsystem/resources.c
@@ -1002,13 +1002,14 @@ void cmd_colinit(struct ptc* p){
 		if (p->stack.stack_i == 1){
 			load_col(col_data, resource_path, name);
 		} else {
+			int index;
+			STACK_INT_RANGE(1,0,255,index);
+
 			static_assert(LITTLE_ENDIAN, "load from file requires this");
 			u16 from_file[256]; // TODO:PERF:LOW loading entire file is slow, store it in-mem?
-			load_col((u8*)from_file, resource_path, name);
-
-			int index;
-			STACK_INT_RANGE(2,0,255,index);
-			((u16*)col_data)[index] = from_file[index];
+			if (load_col((u8*)from_file, resource_path, name)){
+				((u16*)col_data)[index] = from_file[index];
+			}
 		}
 	}
 	// needed for any combination
-- 
2.43.0


From ec53b19977493cc83053f4c2d7b588be5d4f56e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:56 +0000
Subject: [PATCH 045/127] fix: ACLS lost the variables on BREAK and used up
 memory, FILES crashed without a folder or on files without extension

---
 source/interpreter/vars.c |  1 +
 source/system.c           | 38 +++++++++++++++++++++++---------------
 2 files changed, 24 insertions(+), 15 deletions(-)

diff --git a/source/interpreter/vars.c b/source/interpreter/vars.c
index 902a9d8..881b51f 100644
--- a/source/interpreter/vars.c
+++ b/source/interpreter/vars.c
@@ -46,6 +46,7 @@ void reset_var(struct variables* v){
 }
 
 void recount_str_uses(struct variables* v){
+	if (!v->strs) return; // no strings belong to these variables
 	reset_str(v->strs);
 	for (u32 i = 0; i < v->vars_max; ++i){
 		struct named_var* var = &v->vars[i];
diff --git a/source/system.c b/source/system.c
index 5bd867a..dc302a5 100644
--- a/source/system.c
+++ b/source/system.c
@@ -90,24 +90,29 @@ struct labels acls_labels = {0};
 void cmd_acls(struct ptc* p){
 	// copy vars and use a temp variables for this snippet
 	struct runner cur_exec = p->exec; // copy code state
-	struct variables temp_vars = {0};
-	init_mem_var(&temp_vars, 4); //P,I
 	struct variables vars = p->vars;
-	p->vars = temp_vars;
+	idx calls = p->calls.stack_i;
+	struct named_var temp_var[4] = {{0}}; //P,I
+	for (int i = 0; i < 4; ++i) temp_var[i].type = VAR_EMPTY;
+	p->vars = (struct variables){ .vars_max = 4, .vars = temp_var };
 	
 	struct program acls_program = { sizeof(acls_code)-1, acls_code };
 	struct bytecode acls_bc = {
 		0, acls_bytecode, acls_bc_lines, init_labels(0)
 	};
 	
-	p->exec.error = tokenize(&acls_program, &acls_bc);
+	int error = tokenize(&acls_program, &acls_bc);
+	if (error) p->exec.error = error;
 	run(acls_bc, p);
-	if (p->exec.error) return;
-	p->exec = cur_exec;
 	
-	// Restore proper program variable state
+	// Restore proper program state, but keep the error status
+	p->exec.index = cur_exec.index;
+	p->exec.argcount = cur_exec.argcount;
+	p->exec.data_index = cur_exec.data_index;
+	p->exec.data_offset = cur_exec.data_offset;
+	p->exec.code = cur_exec.code;
+	p->calls.stack_i = calls;
 	p->vars = vars;
-	free_mem_var(&temp_vars);
 }
 
 void cmd_visible(struct ptc* p){
@@ -170,27 +175,30 @@ void cmd_wait(struct ptc* p){
 
 void cmd_files(struct ptc* p){
 	char filename[32] = {BC_STRING, 0};
-	if (p->exec.argcount){
+	if (p->stack.stack_i){
 		// FILES (type)
 		ERROR(ERR_UNIMPLEMENTED);
 		// Note: Needs to load each file entry to check header for type.
 	} else {
 		// FILES (all)
 		DIR* dir = opendir(p->res.search_path);
+		if (!dir) return; // no folder: no files
 		for (struct dirent* d = readdir(dir); d != NULL; d = readdir(dir)){
-			filename[1] = strchr(d->d_name, '.') - d->d_name;
-			if (filename[1] > 8 || !filename[1]){
+			const char* ext = strchr(d->d_name, '.');
+			if (!ext || ext == d->d_name || ext - d->d_name > MAX_RESOURCE_NAME_LENGTH){
 				continue; // file is inaccessible, name is too big
 			}
+			filename[1] = ext - d->d_name;
+			bool valid = true;
 			for (int i = 0; i < filename[1]; ++i){
-				if (!is_name(filename[2 + i])){
-					continue; // skip due to invalid characters
-				}
+				filename[2 + i] = d->d_name[i]; // strip any extension
+				valid = valid && is_name(d->d_name[i]);
 			}
-			strncpy(filename + 2, d->d_name, strchr(d->d_name, '.') - d->d_name); // strip any extension
+			if (!valid) continue; // skip due to invalid characters
 			con_puts(&p->console, filename);
 			con_newline(&p->console, true);
 		}
+		closedir(dir);
 	}
 }
 
-- 
2.43.0


From 5c935eaceb29a9becbd8bff805fc3c2523f1bc24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:36 +0000
Subject: [PATCH 046/127] fix: PEEK, POKE and ADDR accessed memory past the
 end, ADDR crashed on unknown names

---
 source/extension/sbc_memory.c | 34 +++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/source/extension/sbc_memory.c b/source/extension/sbc_memory.c
index cc411d4..3c01dbf 100644
--- a/source/extension/sbc_memory.c
+++ b/source/extension/sbc_memory.c
@@ -34,7 +34,7 @@
 		ERROR(ERR_NULL_ADDRESS);\
 	}\
 	if (p->memapi.sys_memsafe){\
-		if (addr_num < ADDR_MIN || addr_num > ADDR_MAX){\
+		if (addr_num < ADDR_MIN || addr_num > ADDR_MAX + 1 - (int)sizeof(type)){\
 			ERROR(ERR_ILLEGAL_ADDRESS);\
 		} else if (ADDR_ALIGN && ((uintptr_t)addr & invalid_align)){\
 			ERROR(ERR_MISALIGNED_ADDRESS);\
@@ -124,7 +124,7 @@ void cmd_memfill(struct ptc* p){
 		ERROR(ERR_NULL_ADDRESS);\
 	}\
 	if (p->memapi.sys_memsafe){\
-		if (addr_num < ADDR_MIN || addr_num > ADDR_MAX){\
+		if (addr_num < ADDR_MIN || addr_num > ADDR_MAX + 1 - (int)sizeof(type)){\
 			ERROR(ERR_ILLEGAL_ADDRESS);\
 		} else if (ADDR_ALIGN && ((uintptr_t)addr & invalid_align)){\
 			ERROR(ERR_MISALIGNED_ADDRESS);\
@@ -179,17 +179,15 @@ void func_addr(struct ptc* p){
 	// pointer: (ptr=offset): * (this reads a new pointer from address `offset`)
 	if (addr_type == FUNC_ADDR_DEREF){
 		if (p->memapi.sys_memsafe){
-			if (ofs_num < ADDR_MIN || ofs_num > ADDR_MAX){
+			if (ofs_num < ADDR_MIN || ofs_num > ADDR_MAX + 1 - (int)sizeof(void*)){
 				ERROR(ERR_ILLEGAL_ADDRESS);
 			} else if (ADDR_ALIGN && (ofs_num & 0x3)){
 				ERROR(ERR_MISALIGNED_ADDRESS);
-			} else if (FIXP_TO_PTR(ofs_num) == NULL){
-				ERROR(ERR_NULL_ADDRESS);
 			}
 		}
 		// dereference this address once
 		void** ptr = (void**)FIXP_TO_PTR(ofs_num);
-		assert(ptr);
+		if (!ptr) ERROR(ERR_NULL_ADDRESS);
 		res_ptr = *ptr;
 		// return here
 		STACK_RETURN_NUM(PTR_TO_FIXP(res_ptr));
@@ -205,13 +203,19 @@ void func_addr(struct ptc* p){
 		} else {
 			type |= VAR_NUMBER;
 		}
-		if (len > 17){
-			ERROR(ERR_ILLEGAL_FUNCTION_CALL); // name too long
+		if (len < 2 || len > 1 + VAR_NAME_MAX_LENGTH){
+			ERROR(ERR_ILLEGAL_FUNCTION_CALL); // no name or name too long
 		}
 		// get_var
-		char var_name[17]; // skip = at beginning
-		str_char_copy(resource, (u8*)var_name);
+		char var_name[VAR_NAME_MAX_LENGTH+1]; // skip = at beginning
+		for (int i = 0; i < len; ++i){
+			var_name[i] = str_at_char(resource, i);
+			if (i && !is_name(var_name[i])){
+				ERROR(ERR_ILLEGAL_FUNCTION_CALL);
+			}
+		}
 		struct named_var* v = get_var(&p->vars, var_name+1, len-1, type);
+		if (!v) ERROR(ERR_OUT_OF_MEMORY);
 		
 		if (addr_type == FUNC_ADDR_VAR_STRUCT){
 			res_ptr = v;
@@ -283,16 +287,16 @@ void func_addr(struct ptc* p){
 				ERROR(ERR_ILLEGAL_OFFSET);
 			}
 		}
-	} else if (len <= 5){
+	} else if (verify_resource_type_str(resource)){
 		res_ptr = str_to_resource(p, resource);
-		if (p->exec.error == ERR_INVALID_RESOURCE_TYPE){
-			p->exec.error = ERR_NONE; // allowed here, retry with variable name
-		}
 		if (p->memapi.sys_memsafe){
-			if (ofs < 0 || ofs >= resource_size[get_resource_type(resource)]){
+			int type = get_resource_type(resource);
+			if (ofs < 0 || ofs >= (type == TYPE_PRG ? MAX_SOURCE_SIZE : resource_size[type])){
 				ERROR(ERR_ILLEGAL_OFFSET);
 			}
 		}
+	} else {
+		ERROR(ERR_ILLEGAL_FUNCTION_CALL); // no such resource
 	}
 	
 	STACK_RETURN_NUM((PTR_TO_FIXP(res_ptr) + ofs));
-- 
2.43.0


From c6ca4539df6b9dd68495dca6621ea6fe8da118fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:57 +0000
Subject: [PATCH 047/127] fix: invalid resource names aborted or accessed other
 memory, names without number used the upper screen

---
 source/subsystem/resources.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/subsystem/resources.c b/source/subsystem/resources.c
index 2248aaa..4518683 100644
--- a/source/subsystem/resources.c
+++ b/source/subsystem/resources.c
@@ -690,6 +690,7 @@ void* get_resource_ptr(struct ptc* p, const char* resource_type){
 	int screen = 0;
 	if (res_type_index == '\0' || res_type_index == RESOURCE_SEPARATOR){
 		bank = 0;
+		screen = -1; // current page
 	} else {
 		bank = res_type_index - '0';
 		char res_type_screen = resource_type[RESOURCE_TYPE_SCREEN_OFS];
@@ -774,7 +775,7 @@ int get_chr_index(struct ptc* p, const char* res){
 struct res_info get_verified_resource_type(struct ptc* p, const void* res){
 	// TODO:ERR:LOW verify correct error codes
 	struct res_info info = {0};
-	if (str_len(res) > MAX_RESOURCE_TYPE_LENGTH){
+	if (!verify_resource_type_str(res)){
 		p->exec.error = ERR_INVALID_RESOURCE_TYPE;
 		return info;
 	}
-- 
2.43.0


From c0fa4f181c9045185b6998f0c837930bd53895bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:16 +0000
Subject: [PATCH 048/127] fix: NEXT ignored errors and BREAK while evaluating
 TO and STEP

---
 source/interpreter/flow.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/source/interpreter/flow.c b/source/interpreter/flow.c
index d5577fc..c471e20 100644
--- a/source/interpreter/flow.c
+++ b/source/interpreter/flow.c
@@ -110,7 +110,13 @@ void cmd_next(struct ptc* p){
 	for_condition.size = to_size;
 	for_condition.data = code.data + to_start;
 	run(for_condition, p);
-	p->exec = temp; //restore program state
+	//restore program state, but keep the error status
+	p->exec.index = temp.index;
+	p->exec.data_index = temp.data_index;
+	p->exec.data_offset = temp.data_offset;
+	p->exec.argcount = temp.argcount;
+	p->exec.code = code;
+	if (p->exec.error) return;
 	
 	// now stack should contain (END, [STEP])
 	s32* current = (s32*)c->var;
-- 
2.43.0


From 3bc703e5e1080aa2cccebd596f8d44eaf74a69d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:13 +0000
Subject: [PATCH 049/127] fix: SQR, EXP, TAN, DEG and POW returned arbitrary
 values for arguments without a result

---
 source/interpreter/mathptc.c | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/source/interpreter/mathptc.c b/source/interpreter/mathptc.c
index 97dba64..86803b6 100644
--- a/source/interpreter/mathptc.c
+++ b/source/interpreter/mathptc.c
@@ -6,6 +6,12 @@
 
 #include <stdlib.h>
 #include <math.h>
+#include <limits.h>
+
+/// Checks if a result can be represented as a fixed-point number
+static bool is_fixp_range(double v){
+	return v >= -524288.0 && v < 524288.0;
+}
 
 void func_rnd(struct ptc* p){
 	struct value_stack* s = &p->stack;
@@ -82,7 +88,7 @@ void func_pow(struct ptc* p){
 	float f = powf(pow_b/4096.0f, pow_e/4096.0f);
 	iprintf("%f", f);
 
-	if (isinf(f)){
+	if (isinf(f) || isnan(f)){
 		ERROR(ERR_ILLEGAL_FUNCTION_CALL);
 	} else if (f >= 524288.0f || f <= -524288.0f) {
 		ERROR(ERR_OVERFLOW);
@@ -108,6 +114,10 @@ void func_rad(struct ptc* p){
 void func_deg(struct ptc* p){
 	struct stack_entry* rad = stack_pop(&p->stack);
 	
+	int64_t deg = (int64_t)VALUE_NUM(rad) * INT_TO_FP(180) / FIXP_PI;
+	if (deg < INT_MIN || deg > INT_MAX){
+		ERROR(ERR_OVERFLOW);
+	}
 	STACK_RETURN_NUM(func_deg_internal(VALUE_NUM(rad)));
 }
 
@@ -145,6 +155,9 @@ void func_cos(struct ptc* p){
 void func_tan(struct ptc* p){
 	struct stack_entry* rad = stack_pop(&p->stack);
 	
+	if (!is_fixp_range(tan(VALUE_NUM(rad)/4096.0))){
+		ERROR(ERR_OVERFLOW);
+	}
 	STACK_RETURN_NUM(func_tan_internal(VALUE_NUM(rad)));
 }
 
@@ -195,12 +208,18 @@ fixp func_exp_internal(fixp value){
 void func_sqr(struct ptc* p){
 	struct stack_entry* val = stack_pop(&p->stack);
 	
+	if (VALUE_NUM(val) < 0){
+		ERROR(ERR_ILLEGAL_FUNCTION_CALL);
+	}
 	STACK_RETURN_NUM(func_sqr_internal(VALUE_NUM(val)));
 }
 
 void func_exp(struct ptc* p){
 	struct stack_entry* val = stack_pop(&p->stack);
 	
+	if (!is_fixp_range(exp(VALUE_NUM(val)/4096.0))){
+		ERROR(ERR_OVERFLOW);
+	}
 	STACK_RETURN_NUM(func_exp_internal(VALUE_NUM(val)));
 }
 
-- 
2.43.0


From d4955f439b20cd132a054f107f3125196ff4778b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:03 +0000
Subject: [PATCH 050/127] fix: EXP and TAN could not be called

---
 source/interpreter/tokens.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/interpreter/tokens.c b/source/interpreter/tokens.c
index c57cfdf..02a635b 100644
--- a/source/interpreter/tokens.c
+++ b/source/interpreter/tokens.c
@@ -123,10 +123,10 @@ const char* cmd_format[] = {
 
 const char* func_format[] = {
 	"N","S","N,NN","N","0,N","NN","0","0,N",//BUTTON
-	"NN","N","N","N","","N","NN,NNN","N,NN","0",//ICONCHK
+	"NN","N","N","N","N","N","NN,NNN","N,NN","0",//ICONCHK
 	"0","SS,SSN","SN","S","N","SNN","0","NN","N",//RAD
 	"SN","N","N","N","N","NN","N,NN","",//SPHITRC
-	"NN","N","N","SNNS","","S",//VAL
+	"NN","N","N","SNNS","N","S",//VAL
 	"0",
 	"N","N","N","S,SN","N" // PTR
 };
-- 
2.43.0


From 487971d49295c4ecaaa0256a2e4a198d7349ccc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:39 +0000
Subject: [PATCH 051/127] fix: loading damaged, truncated or mismatched files
 overwrote memory and reported success

---
 source/extension/compress.c  |  46 ++---
 source/extension/compress.h  |  10 +-
 source/interpreter/runner.c  |   3 +-
 source/subsystem/resources.c | 347 +++++++++++++++++------------------
 source/subsystem/resources.h |   7 +-
 source/system.c              |   4 +-
 6 files changed, 211 insertions(+), 206 deletions(-)

diff --git a/source/extension/compress.c b/source/extension/compress.c
index 2ba6ccf..8bf4717 100644
--- a/source/extension/compress.c
+++ b/source/extension/compress.c
@@ -53,10 +53,15 @@ int sbc_compress(const unsigned char* const source_data, unsigned char* output_d
 	int cache_next_slot = 0;
 	int source_index = 0;
 	int output_index = 0;
-	while (source_index < source_size && (output_index / 8 + (output_index % 8 != 0)) < source_size){
+	while (source_index < source_size){
 		int unit = source_data[source_index];
 		++source_index;
 		int cache_index = sbc_cache_search(unit, cache, cache_maximum);
+		int unit_bits = 1 + (cache_index > -1 ? cache_size : unit_size);
+		if (output_index + unit_bits > 8 * (source_size - 1)){
+			// Would not compress better than source
+			return -1;
+		}
 		if (cache_index > -1){
 			// Found a previous value
 			sbc_write_bit(output_data, &output_index, 0);
@@ -70,10 +75,6 @@ int sbc_compress(const unsigned char* const source_data, unsigned char* output_d
 			cache_next_slot = (cache_next_slot + 1) % cache_maximum;
 		}
 	}
-	if (output_index / 8 + (output_index % 8 != 0) >= source_size){
-		// Did not compress better than source
-		return -1;
-	}
 	// return size of output data
 	return output_index / 8 + (output_index % 8 != 0);
 }
@@ -99,6 +100,7 @@ struct sbc_compression_result sbc_optimal_compress(const unsigned char* const so
 
 int sbc_read_bits(const unsigned char* const source_data, int* bit_index, int bits){
 	assert(bits <= 8);
+	if (!bits) return 0; // may be at the end of the data
 	int byte_index = *bit_index / 8;
 	int bit = *bit_index % 8;
 	*bit_index += bits;
@@ -120,10 +122,15 @@ int sbc_read_bits(const unsigned char* const source_data, int* bit_index, int bi
 	//      1xx xxxxxx
 }
 
-// note: decompression happens from low to high address
-// if compressed is placed at end of destination range,
-// decompression should only overwrite bytes that have already been read
-unsigned char* sbc_decompress(const unsigned char* const source_data, unsigned char* dest, int decompressed_size, int cache_bits){
+bool sbc_decompress(const unsigned char* const source_data, int source_size, unsigned char* dest, int decompressed_size, int cache_bits){
+	if (cache_bits == -1){
+		// Not compressed
+		if (source_size < decompressed_size) return false;
+		memcpy(dest, source_data, decompressed_size);
+		return true;
+	}
+	if (cache_bits < 0 || cache_bits > 7) return false;
+
 	// Cache info
 	unsigned char cache[128] = {0};
 	const int cache_maximum = 1 << cache_bits;
@@ -133,25 +140,22 @@ unsigned char* sbc_decompress(const unsigned char* const source_data, unsigned c
 	
 	int cache_next_slot = 0;
 	
-	unsigned char* output = dest;
-	
 	int source_bit = 0;
+	const int source_bits = source_size * 8;
 	for (int i = 0; i < decompressed_size; ++i){
-		if (sbc_read_bits(source_data, &source_bit, 1)){
-			// literal
-			output[i] = sbc_read_bits(source_data, &source_bit, 8);
-//			printf("%s%s \n", bin[((unsigned char)output[i]) >> 4], bin[output[i] & 0xf]);
-			cache[cache_next_slot] = output[i];
+		if (source_bit + 1 > source_bits) return false;
+		bool literal = sbc_read_bits(source_data, &source_bit, 1);
+		if (source_bit + (literal ? 8 : cache_bits) > source_bits) return false;
+		if (literal){
+			dest[i] = sbc_read_bits(source_data, &source_bit, 8);
+			cache[cache_next_slot] = dest[i];
 			cache_next_slot = (cache_next_slot + 1) % cache_maximum;
 		} else {
 			// cache
-			output[i] = cache[sbc_read_bits(source_data, &source_bit, cache_bits)];
+			dest[i] = cache[sbc_read_bits(source_data, &source_bit, cache_bits)];
 		}
-//		printf("%d,",output[i]);
 	}
-	printf("\n");
-	
-	return output;
+	return true;
 }
 
 /*int main(int argc, char** argv){
diff --git a/source/extension/compress.h b/source/extension/compress.h
index dc609aa..c265d7e 100644
--- a/source/extension/compress.h
+++ b/source/extension/compress.h
@@ -1,5 +1,7 @@
 #pragma once
 
+#include <stdbool.h>
+
 int sbc_cache_search(unsigned char value, const unsigned char* const cache, int cache_size);
 
 void sbc_write_bits(unsigned char* output_data, int* output_index, int value, int bits);
@@ -25,4 +27,10 @@ struct sbc_compression_result sbc_optimal_compress(const unsigned char* const so
 
 int sbc_read_bits(const unsigned char* const source_data, int* bit_index, int bits);
 
-unsigned char* sbc_decompress(const unsigned char* const source_data, unsigned char* dest, int decompressed_size, int cache_bits);
+/// Decompresses data created by sbc_compress. The buffers must not overlap.
+///
+/// @param source_size Size of the compressed data, in bytes
+/// @param decompressed_size Size of the original data, in bytes
+/// @param cache_bits Size of compression cache (-1: stored without compression)
+/// @return true if the data was complete and valid. If not, the contents of dest are unspecified.
+bool sbc_decompress(const unsigned char* const source_data, int source_size, unsigned char* dest, int decompressed_size, int cache_bits);
diff --git a/source/interpreter/runner.c b/source/interpreter/runner.c
index 25c7d60..2cd834d 100644
--- a/source/interpreter/runner.c
+++ b/source/interpreter/runner.c
@@ -598,8 +598,7 @@ void cmd_exec(struct ptc* p){
 	filename_buf[str_len(filename)] = '\0';
 	
 	// Load program into memory and tokenize
-	int size = load_program(p, p->res.search_path, filename_buf);
-	if (!size){
+	if (!load_program(p, p->res.search_path, filename_buf)){
 		// Failed to load file
 		p->res.result = 0;
 		return;
diff --git a/source/subsystem/resources.c b/source/subsystem/resources.c
index 4518683..8e13183 100644
--- a/source/subsystem/resources.c
+++ b/source/subsystem/resources.c
@@ -22,6 +22,11 @@
 	return 0;\
 } while (0)
 
+/// Size of SBC compressed file header
+#define SBCC_HEADER_SIZE 8
+/// Largest file size accepted: a program with every resource packaged
+#define MAX_FILE_SIZE (PRG_HEADER_SIZE + MAX_SOURCE_SIZE + PACKAGE_STR_BIN_DIGITS * (HEADER_TYPE_STR_SIZE + GRP_SIZE))
+
 #define FILE_OK() do {\
 	fclose(f);\
 	return size_read;\
@@ -76,105 +81,140 @@ const char package_resources[] =
 // bit 44
 ;
 
-int load_program(struct ptc* p, const char* search_path, const char* name){
-	int size_read;
-	char path[MAX_FILEPATH_LENGTH+1] = {0};
-	if (!create_path(path, search_path, name, ".PTC")){
-		FILE_ERROR("File name too long");
-	}
-
+/// Read a complete file into a new buffer, which must be freed.
+/// @return NULL if the file could not be read completely
+static u8* read_file(const char* path, int* size){
 	FILE* f = fopen(path, "rb");
 	if (!f){
-		FILE_ERROR("Failed to load file");
+		iprintf("Failed to load file [path=%s]\n", path);
+		return NULL;
+	}
+	u8* data = NULL;
+	long file_size = -1;
+	if (!fseek(f, 0, SEEK_END)) file_size = ftell(f);
+	if (file_size >= 0 && file_size <= MAX_FILE_SIZE && !fseek(f, 0, SEEK_SET)){
+		data = malloc(file_size + 1);
+		if (data && (long)fread(data, sizeof(u8), file_size, f) != file_size){
+			free(data);
+			data = NULL;
+		}
 	}
-	struct ptc_header h;
-	fread(h.magic, sizeof(char), 4, f);
-	CHECK_FILE_ERROR("Failed to read file magic ID");
-	fseek(f, 0, SEEK_SET);
-	CHECK_FILE_ERROR("Failed to seek to file start");
+	fclose(f);
+	if (!data){
+		iprintf("Failed to read file [path=%s]\n", path);
+	}
+	*size = file_size;
+	return data;
+}
+
+/// Replace the contents of a resource with loaded data.
+static void set_resource(struct ptc* p, const struct res_info* info, const u8* data){
+	memcpy(info->data, data, resource_size[info->type_id]);
+	if (info->type_id == TYPE_CHR){
+		p->res.regen_chr[get_chr_index(p, info->type)] = true;
+	} else if (info->type_id == TYPE_COL){
+		p->res.regen_col = true;
+	} else if (info->type_id == TYPE_MEM){
+		p->res.mem_str.len = p->res.mem.size;
+	}
+}
+
+/// Check that data is suitable for the given type of resource.
+static bool valid_resource_data(int type, const u8* data){
+	if (type != TYPE_MEM) return true;
+	u32 len;
+	memcpy(&len, data + MAX_STRLEN * sizeof(u16), sizeof(u32));
+	return len <= MAX_STRLEN;
+}
+
+/// Package resource type with the given index, as an SBC string
+static void package_resource_str(char resource[2+MAX_RESOURCE_TYPE_LENGTH+1], int i){
+	resource[0] = BC_STRING;
+	strncpy(resource + 2, package_resources + MAX_RESOURCE_TYPE_LENGTH * i, MAX_RESOURCE_TYPE_LENGTH);
+	resource[2 + MAX_RESOURCE_TYPE_LENGTH] = '\0';
+	resource[1] = strlen(resource + 2);
+}
 
+/// Loads a program from the contents of a file. Nothing is changed unless
+/// the program and all of its packaged resources are valid.
+static bool load_program_data(struct ptc* p, const char* name, const u8* data, int size){
+	struct ptc_header h;
+	int ofs;
 	// only works on little-endian devices...
 	// (reading into header struct directly)
 	assert(LITTLE_ENDIAN);
-	if (!strncmp(h.magic, "PX01", 4)){
-		size_read = fread(&h, sizeof(char), PRG_HEADER_SIZE, f);
-		CHECK_FILE_ERROR("Could not read header correctly");
-		if (size_read < PRG_HEADER_SIZE){
-			FILE_CLOSE("Could not read full header");
-		}
-	} else if (!strncmp(h.magic, "PETC", 4)){
+	if (size >= PRG_HEADER_SIZE && !memcmp(data, "PX01", 4)){
+		memcpy(&h, data, PRG_HEADER_SIZE);
+		ofs = PRG_HEADER_SIZE;
+	} else if (size >= PRG_HEADER_SIZE - HEADER_SIZE + HEADER_TYPE_STR_SIZE && !memcmp(data, "PETC", 4)){
 		// internal format
-		int internal_header_size = PRG_HEADER_SIZE - HEADER_SIZE + HEADER_TYPE_STR_SIZE;
-		size_read = fread(h.type_str, sizeof(u8), internal_header_size, f);
-		CHECK_FILE_ERROR("Could not read program header");
-		if (size_read < internal_header_size){
-			FILE_CLOSE("Could not read complete program header");
-		}
+		ofs = PRG_HEADER_SIZE - HEADER_SIZE + HEADER_TYPE_STR_SIZE;
+		memcpy(h.type_str, data, ofs);
+		// no name is stored
+		strncpy(h.name, name, PRGNAME_STR_LENGTH);
 	} else {
-		FILE_CLOSE("Unknown PRG file format");
+		return false;
 	}
+	if (memcmp(h.type_str, internal_type_str[TYPE_PRG], HEADER_TYPE_STR_SIZE)) return false;
+	if (h.prg_size > MAX_SOURCE_SIZE || (int)h.prg_size > size - ofs) return false;
+
+	const u8* prg_data = data + ofs;
+	// packages start at the next multiple of 4
+	int package_ofs = ofs + ((h.prg_size + 3) & ~3);
 
-	// Read program data
-	size_read = fread(get_resource_ptr(p, "PRG"), sizeof(u8), h.prg_size, f);
-	if (size_read < (int)h.prg_size){
-		FILE_CLOSE("Could not read complete program");
+	// Packages as specified by package bits
+	uint64_t package = (((uint64_t)h.package_high) << 32) | h.package_low;
+	// First check that every package is valid, then load them
+	for (int load = 0; load <= 1; ++load){
+		ofs = package_ofs;
+		for (uint_fast8_t i = 0; i < PACKAGE_STR_BIN_DIGITS; ++i){
+			// Check if resource needs to be loaded
+			if (!(package & ((uint64_t)1<<i))) continue;
+			char resource[2+MAX_RESOURCE_TYPE_LENGTH+1];
+			package_resource_str(resource, i);
+			// Get destination for this resource index
+			struct res_info info = get_verified_resource_type(p, resource);
+			int res_size = resource_size[info.type_id];
+			if (size - ofs < HEADER_TYPE_STR_SIZE + res_size) return false;
+			// Check type string matches
+			if (memcmp(data + ofs, internal_type_str[info.type_id], HEADER_TYPE_STR_SIZE)) return false;
+			ofs += HEADER_TYPE_STR_SIZE;
+			if (!valid_resource_data(info.type_id, data + ofs)) return false;
+			// Load resource
+			if (load) set_resource(p, &info, data + ofs);
+			ofs += res_size;
+		}
 	}
-	p->exec.prg.size = size_read;
-	// 4 -> +0
-	// 1 -> +3
-	// 2 -> +2
-	// 3 -> +1
-	fseek(f, "\0\3\2\1"[h.prg_size & 3], SEEK_CUR);
-	CHECK_FILE_ERROR("Could not seek past program");
+
+	memcpy(p->exec.prg.data, prg_data, h.prg_size);
+	p->exec.prg.size = h.prg_size;
 
 	// Copy loaded program name
 	memset(p->res.prgname, '\0', sizeof(p->res.prgname)); // lazy null termination
 	strncpy(p->res.prgname, h.name, PRGNAME_STR_LENGTH);
 
-	// Read packages as specified by package bits
-	uint64_t package = (((uint64_t)h.package_high) << 32) | h.package_low;
 	// Build package string
 	for (uint_fast8_t i = 0; i < PACKAGE_STR_LENGTH; ++i){
 		p->res.package[PACKAGE_STR_LENGTH - i - 1] = hex_digits[(package & (((uint64_t)0xf) << (i * 4))) >> (i * 4)];
 	}
-//	iprintf("Package bitmask: %lx ", package);
-	iprintf("string: %s\n", p->res.package);
-
-	for (uint_fast8_t i = 0; i < PACKAGE_STR_BIN_DIGITS; ++i){
-		// Check if resource needs to be loaded
-		if (!(package & ((uint64_t)1<<i))) continue;
-		// Create resource type as SBC string
-		char resource[2+MAX_RESOURCE_TYPE_LENGTH+1] = {BC_STRING, 0};
-		strncpy(resource + 2, package_resources + MAX_RESOURCE_TYPE_LENGTH * i, MAX_RESOURCE_TYPE_LENGTH);
-		resource[1] = strlen(resource + 2);
-		iprintf("res: %d,%d, %.*s", i, resource[1], resource[1], resource+2);
-		// Get destination for this resource index
-		struct res_info info = get_verified_resource_type(p, resource);
-		// Check type string matches
-		char type_str[HEADER_TYPE_STR_SIZE];
-		int read = fread(type_str, sizeof(char), HEADER_TYPE_STR_SIZE, f);
-		if (read != HEADER_TYPE_STR_SIZE){
-			FILE_CLOSE("Failed to skip type string");
-		}
-		iprintf("%d,%12s\n", info.type_id, type_str);
-		if (strncmp(type_str, internal_type_str[info.type_id], HEADER_TYPE_STR_SIZE)){
-			FILE_CLOSE("Internal type string does not match expected type");
-		}
-		// Load resource
-		read = fread(info.data, sizeof(u8), resource_size[info.type_id], f);
-		if (read != resource_size[info.type_id]){
-			FILE_CLOSE("Could not read complete resource");
-		}
-		// Mark as needing refresh
-		if (info.type_id == TYPE_CHR){
-			p->res.regen_chr[get_chr_index(p, info.type)] = true;
-		} else if (info.type_id == TYPE_COL){
-			p->res.regen_col = true;
-		}
+	return true;
+}
+
+bool load_program(struct ptc* p, const char* search_path, const char* name){
+	char path[MAX_FILEPATH_LENGTH+1] = {0};
+	if (!create_path(path, search_path, name, ".PTC")){
+		FILE_ERROR("File name too long");
 	}
 
-	// This returns the size of the read program data.
-	FILE_OK();
+	int size;
+	u8* data = read_file(path, &size);
+	if (!data) return false;
+	bool success = load_program_data(p, name, data, size);
+	free(data);
+	if (!success){
+		FILE_ERROR("Not a valid program file");
+	}
+	return true;
 }
 
 bool create_path(char dest[MAX_FILEPATH_LENGTH+1], const char* base, const char* name, const char* ext){
@@ -311,93 +351,63 @@ int check_save_res(void* src, const char* search_path, const char* name, int typ
 	}
 }
 
-// TODO:ERR:LOW Add file type validation
-int check_load_res(u8* dest, const char* search_path, const char* name, int type){
+/// Read a resource from a file to dest. On failure, dest is not changed.
+/// @param type Required resource type, or TYPE_INVALID to accept any
+static bool load_resource_file(u8* dest, const char* search_path, const char* name, int type, int size){
 	char path[MAX_FILEPATH_LENGTH+1] = {0};
 	if (!create_path(path, search_path, name, ".PTC")){
 		FILE_ERROR("File name too long");
 	}
 
-	if (type == TYPE_PRG){
-		return load_program((struct ptc*)dest, search_path, name);
-	} else if (type == TYPE_MEM){
-		return check_load_file(dest, search_path, name, resource_size[type]);
-	} else if (type >= TYPE_CHR && type <= TYPE_COL){
-		return check_load_file(dest, search_path, name, resource_size[type]);
-	}
-	FILE_ERROR("Unknown resource type");
-}
-
-// Checks the file type and loads the correct data from the file.
-// Note: path, name must be null-terminated
-int check_load_file(u8* dest, const char* search_path, const char* name, int size){
-	int size_read;
-	char path[MAX_FILEPATH_LENGTH+1] = {0};
-	if (!create_path(path, search_path, name, ".PTC")){
-		FILE_ERROR("File name too long");
-	}
+	int file_size;
+	u8* file = read_file(path, &file_size);
+	if (!file) return false;
 
-	FILE* f = fopen(path, "rb");
-	if (!f){
-		FILE_ERROR("Failed to load file");
-	}
-	char check_type[4] = {0};
-	fread(check_type, sizeof(char), 4, f);
-	CHECK_FILE_ERROR("Failed to check file type");
-	// Note: strncmp returns 0 if equal
-	if (!strncmp(check_type, "PX01", 4)){
+	u8* decompressed = NULL;
+	const u8* type_str = NULL;
+	const u8* data = NULL;
+	if (file_size >= HEADER_SIZE && !memcmp(file, "PX01", 4)){
 		// Petit Computer SD format file, header: skip header info
-		if (fseek(f, HEADER_SIZE, SEEK_SET)){
-			FILE_CLOSE("Failed to seek past header");
-		}
-
-		size_read = fread(dest, sizeof(u8), size, f);
-		CHECK_FILE_ERROR("Failed to read file");
-		FILE_OK();
-	} else if (!strncmp(check_type, "PETC", 4)){
+		type_str = file + HEADER_SIZE - HEADER_TYPE_STR_SIZE;
+		data = file + HEADER_SIZE;
+	} else if (file_size >= HEADER_TYPE_STR_SIZE && !memcmp(file, "PETC", 4)){
 		// Petit Computer internal file format: skip type
-		if (fseek(f, 12, SEEK_SET)){
-			FILE_CLOSE("Failed to seek past type");
-		}
-		size_read = fread(dest, sizeof(u8), size, f);
-		CHECK_FILE_ERROR("Failed to read file");
-		FILE_OK();
-	} else if (!strncmp(check_type, "SBCC", 4)){
+		type_str = file;
+		data = file + HEADER_TYPE_STR_SIZE;
+	} else if (file_size >= SBCC_HEADER_SIZE && !memcmp(file, "SBCC", 4)){
 		// SBC compressed format (something a bit more inventive)
-		if (fseek(f, 4, SEEK_SET)){
-			FILE_CLOSE("Failed to seek past file type id");
+		int bits = (int8_t)file[4];
+		int expected_size = file[5] | (file[6] << 8) | (file[7] << 16);
+		if (expected_size == size){
+			decompressed = malloc(size);
 		}
-		u8 header[4];
-		fread(header, sizeof(u8), 4, f);
-		CHECK_FILE_ERROR("Failed to read header");
-
-		// Determine size of file
-		if (fseek(f, 0, SEEK_END)){
-			FILE_CLOSE("Failed to seek to end of file");
+		if (decompressed && sbc_decompress(file + SBCC_HEADER_SIZE, file_size - SBCC_HEADER_SIZE, decompressed, size, bits)){
+			data = decompressed;
 		}
-		int file_size = ftell(f);
-		if (file_size < 0){
-			FILE_CLOSE("Failed to determine file size");
+	}
+	bool success = data != NULL;
+	if (success && !decompressed){
+		success = file + file_size - data >= size;
+		if (type != TYPE_INVALID){
+			success = success && !memcmp(type_str, internal_type_str[type], HEADER_TYPE_STR_SIZE);
 		}
-		rewind(f); // resets errors apparently
-
-		// Use destination as temporary storage
-		// causes brief artifacting but requires zero extra memory
-		u8* compressed = dest + size - file_size; // places file at end of destination
-		size_read = fread(compressed, sizeof(u8), file_size, f);
-		CHECK_FILE_ERROR("Failed to read file");
-		compressed += 8; // skip header
-
-		int bits = header[0];
-		int expected_size = header[1] | (header[2] << 8) | (header[3] << 16);
-		(void)expected_size; // for when assert fails
-		assert(expected_size == size); // request == expected
-		sbc_decompress(compressed, dest, size, bits);
-
-		FILE_OK();
-	} else {
-		FILE_CLOSE("Failed to load file (Unknown format)");
 	}
+	success = success && valid_resource_data(type, data);
+	if (success){
+		memcpy(dest, data, size);
+	}
+	free(decompressed);
+	free(file);
+	if (!success){
+		FILE_ERROR("Failed to load file (Invalid contents)");
+	}
+	return true;
+}
+
+// Loads the correct data from the file.
+// Note: path, name must be null-terminated
+bool check_load_file(u8* dest, const char* search_path, const char* name, int size){
+	return load_resource_file(dest, search_path, name, TYPE_INVALID, size);
 }
 
 // Load from file `name` into dest
@@ -829,34 +839,19 @@ void cmd_load(struct ptc* p){
 	struct res_info info = get_verified_resource(p, res);
 	if (p->exec.error) return; // error condition already met, fail here
 
-	if (info.type_id == TYPE_PRG) info.data = p;
-	int size = check_load_res(info.data, p->res.search_path, info.name, info.type_id);
-	p->res.result = size != 0;
-
-	switch (info.type_id){
-		case TYPE_CHR:
-			p->res.regen_chr[get_chr_index(p, info.type)] = true;
-			break;
-
-		case TYPE_COL:
-			p->res.regen_col = true;
-			break;
-
-		case TYPE_PRG:
-		case TYPE_SCR:
-		case TYPE_GRP:
-			// no special handling
-			break;
-
-		case TYPE_MEM:;
-			assert(LITTLE_ENDIAN);
-			p->res.mem_str.len = p->res.mem.size;
-			break;
+	if (info.type_id == TYPE_PRG){
+		p->res.result = load_program(p, p->res.search_path, info.name);
+		return;
+	}
 
-		default:
-			iprintf("Error: invalid resource type\n %s:%s\n", info.type, info.name);
-			assert(false);
+	// load to temporary memory, so that a failed load changes nothing
+	u8* data = malloc(resource_size[info.type_id]);
+	if (!data) ERROR(ERR_OUT_OF_MEMORY);
+	p->res.result = load_resource_file(data, p->res.search_path, info.name, info.type_id, resource_size[info.type_id]);
+	if (p->res.result){
+		set_resource(p, &info, data);
 	}
+	free(data);
 }
 
 void cmd_save(struct ptc* p){
diff --git a/source/subsystem/resources.h b/source/subsystem/resources.h
index 38cf14b..d90bf63 100644
--- a/source/subsystem/resources.h
+++ b/source/subsystem/resources.h
@@ -222,11 +222,12 @@ struct res_info get_verified_resource(struct ptc* p, const void* res);
 
 bool verify_file_type(const char* path, int type);
 bool verify_search_file_type(const char* search_path, const char* name, int type);
-int check_load_res(u8* dest, const char* search_path, const char* name, int type);
-int check_load_file(u8* dest, const char* search_path, const char* name, int size);
+bool check_load_file(u8* dest, const char* search_path, const char* name, int size);
 
 /// This includes packaged resources.
-int load_program(struct ptc* p, const char* search_path, const char* name);
+/// If loading fails, nothing is changed.
+/// @return true on success
+bool load_program(struct ptc* p, const char* search_path, const char* name);
 
 int load_file(u8* dest, const char* path, int skip, int len);
 bool load_chr(u8* dest, const char* path, const char* name);
diff --git a/source/system.c b/source/system.c
index dc302a5..059c18e 100644
--- a/source/system.c
+++ b/source/system.c
@@ -444,9 +444,7 @@ int launch_system(void* launch_info){
 				break;
 				
 			case LAUNCH_AUTOLOAD: // auto load program
-				load_program(p, p->res.search_path, info->prg_filename);
-//				p->exec.prg.size = check_load_res((u8*)p->exec.prg.data, p->res.search_path, info->prg_filename, TYPE_PRG);
-				if (!p->exec.prg.size){
+				if (!load_program(p, p->res.search_path, info->prg_filename)){
 					p->exec.error = ERR_FILE_LOAD_FAILED;
 					state = LAUNCH_PROMPT;
 				} else {
-- 
2.43.0


From 2cd73345a24ec02cec0491b7789e2d6c23ea1c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:39 +0000
Subject: [PATCH 052/127] fix: SAVE of programs failed, and a failed SAVE
 destroyed the existing file

---
 source/subsystem/resources.c | 83 +++++++++++++++++++-----------------
 1 file changed, 44 insertions(+), 39 deletions(-)

diff --git a/source/subsystem/resources.c b/source/subsystem/resources.c
index 8e13183..1fd9e4b 100644
--- a/source/subsystem/resources.c
+++ b/source/subsystem/resources.c
@@ -27,11 +27,6 @@
 /// Largest file size accepted: a program with every resource packaged
 #define MAX_FILE_SIZE (PRG_HEADER_SIZE + MAX_SOURCE_SIZE + PACKAGE_STR_BIN_DIGITS * (HEADER_TYPE_STR_SIZE + GRP_SIZE))
 
-#define FILE_OK() do {\
-	fclose(f);\
-	return size_read;\
-} while (0)
-
 /// Error indication and file cleanup
 #define FILE_CLOSE(msg) do {\
 	fclose(f);\
@@ -309,45 +304,55 @@ int load_file(u8* dest, const char* path, int skip, int len){
 	return read;
 }
 
-int check_save_res(void* src, const char* search_path, const char* name, int type){
-	int size_read;
+/// Writes a file consisting of two parts.
+/// An existing file is only replaced after the new one was written completely.
+static bool write_file(const char* search_path, const char* name, const void* header, int header_size, const void* data, int size){
 	char path[MAX_FILEPATH_LENGTH+1] = {0};
-	if (!create_path(path, search_path, name, ".PTC")){
+	char temp_path[MAX_FILEPATH_LENGTH+1] = {0};
+	if (!create_path(path, search_path, name, ".PTC") || !create_path(temp_path, search_path, name, ".TMP")){
 		FILE_ERROR("File name too long");
 	}
 
+	FILE* f = fopen(temp_path, "wb");
+	if (!f){
+		FILE_ERROR("Could not open file for writing");
+	}
+	bool success = (int)fwrite(header, sizeof(u8), header_size, f) == header_size;
+	success = success && (int)fwrite(data, sizeof(u8), size, f) == size;
+	// may write buffered data
+	success = !fclose(f) && success;
+#if defined(ARM9) || defined(_WIN32)
+	// rename does not replace files
+	if (success) remove(path);
+#endif
+	success = success && !rename(temp_path, path);
+	if (!success){
+		remove(temp_path);
+		FILE_ERROR("Failed to write file");
+	}
+	return true;
+}
+
+bool check_save_res(const void* src, const char* search_path, const char* name, int type){
+	u8 header[PRG_HEADER_SIZE - HEADER_SIZE + HEADER_TYPE_STR_SIZE] = {0};
+	if (type >= TYPE_PRG && type < TYPE_INVALID){
+		memcpy(header, internal_type_str[type], HEADER_TYPE_STR_SIZE);
+	}
+
 	if (type == TYPE_PRG){
-		FILE* f = fopen(path, "wb");
-		if (!f){
-			FILE_ERROR("Could not open file for writing");
-		}
-		struct program prg = *(struct program*)src;
-
-		char data[12] = {0};
-		data[8] = prg.size & 0xff;
-		data[9] = (prg.size >> 8) & 0xff;
-		data[10] = (prg.size >> 16) & 0xff;
-
-		fwrite(internal_type_str[type], 1, 12, f);
-		CHECK_FILE_ERROR("Failed to write file type");
-		fwrite(data, 1, 12, f);
-		CHECK_FILE_ERROR("Failed to write program header");
-		size_read = fwrite(prg.data, 1, prg.size, f);
-		CHECK_FILE_ERROR("Failed to write program data");
-		FILE_OK(); // close and return size_read
-	} else if (type > TYPE_PRG && type < TYPE_INVALID) {
-		FILE* f = fopen(path, "wb");
-		if (!f){
-			FILE_ERROR("Could not open file for writing");
-		}
+		const struct program* prg = src;
+
+		u8* prg_size = header + HEADER_TYPE_STR_SIZE + 8;
+		prg_size[0] = prg->size & 0xff;
+		prg_size[1] = (prg->size >> 8) & 0xff;
+		prg_size[2] = (prg->size >> 16) & 0xff;
 
-		fwrite(internal_type_str[type], 1, 12, f);
-		CHECK_FILE_ERROR("Failed to write file type");
-		size_read = fwrite((u8*)src, 1, resource_size[type], f);
-		CHECK_FILE_ERROR("Failed to write resource data");
-		FILE_OK(); // close and return size_read
+		return write_file(search_path, name, header, sizeof(header), prg->data, prg->size);
+	} else if (type > TYPE_PRG && type < TYPE_INVALID) {
+		return write_file(search_path, name, header, HEADER_TYPE_STR_SIZE, src, resource_size[type]);
 	} else {
-		FILE_ERROR("Unimplemented or invalid resource save type");
+		iprintf("Unimplemented or invalid resource save type\n");
+		return false;
 	}
 }
 
@@ -861,8 +866,8 @@ void cmd_save(struct ptc* p){
 	if (p->exec.error) return; // error condition already met, fail here
 
 	assert(LITTLE_ENDIAN); // relied on for TYPE_MEM
-	int size = check_save_res(info.data, p->res.search_path, info.name, info.type_id);
-	p->res.result = size != 0;
+	if (info.type_id == TYPE_PRG) info.data = &p->exec.prg;
+	p->res.result = check_save_res(info.data, p->res.search_path, info.name, info.type_id);
 }
 
 void cmd_chrinit(struct ptc* p){
-- 
2.43.0


From a63044e768173c8a9b831790742e3177ceddfd6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:39 +0000
Subject: [PATCH 053/127] fix: EXEC could load files outside the program folder

---
 source/interpreter/runner.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/interpreter/runner.c b/source/interpreter/runner.c
index 2cd834d..f49a2ac 100644
--- a/source/interpreter/runner.c
+++ b/source/interpreter/runner.c
@@ -592,13 +592,13 @@ void run(struct bytecode code, struct ptc* p){
 
 void cmd_exec(struct ptc* p){
 	// EXEC filename
-	char filename_buf[MAX_STRLEN+1];
 	void* filename = value_str(ARG(0));
-	str_char_copy(filename, (u8*)filename_buf);
-	filename_buf[str_len(filename)] = '\0';
+	struct res_info info = get_verified_resource(p, filename);
+	if (p->exec.error) return;
+	if (info.type_id != TYPE_PRG) ERROR(ERR_INVALID_RESOURCE_TYPE);
 	
 	// Load program into memory and tokenize
-	if (!load_program(p, p->res.search_path, filename_buf)){
+	if (!load_program(p, p->res.search_path, info.name)){
 		// Failed to load file
 		p->res.result = 0;
 		return;
-- 
2.43.0


From abfcf0d519a55bd5d7ca97547c7a94c7f1c191e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:38 +0000
Subject: [PATCH 054/127] fix: sbc_compress wrote past the end of the output
 for a cache of one entry

---
 source/extension/compress.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/extension/compress.c b/source/extension/compress.c
index 8bf4717..5d51386 100644
--- a/source/extension/compress.c
+++ b/source/extension/compress.c
@@ -22,6 +22,7 @@ int sbc_cache_search(unsigned char value, const unsigned char* const cache, int
 }
 
 void sbc_write_bits(unsigned char* output_data, int* output_index, int value, int bits){
+	if (!bits) return; // may be at the end of the data
 	value <<= 8 - (*output_index % 8) + (8 - bits);
 	int value_high = value >> 8;
 	int value_low = value & 0xff;
-- 
2.43.0


From 5fef89060c3388639228478b2f0063bb09356f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:36 +0000
Subject: [PATCH 055/127] fix: PRINT made the next command of the line keep its
 commas

---
 source/interpreter/tokens.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/interpreter/tokens.c b/source/interpreter/tokens.c
index 02a635b..c341eb6 100644
--- a/source/interpreter/tokens.c
+++ b/source/interpreter/tokens.c
@@ -1172,6 +1172,8 @@ int tok_eval(struct tokenizer* state){
 			if (state->tokens[i].type == command){
 				// These are all of the special cases
 				// (many are flow control commands with unique parsing needs)
+				// Only the items of PRINT keep their commas, not another command's after it
+				implicit_commas = true;
 				if (state->tokens[i].cmd == CMD_DIM){
 				// command is DIM: set array-creation-mode for following tokens
 					is_dim = true;
-- 
2.43.0


From 884c1fa84a70a63d22bacb270310ace3fe934e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:39 +0000
Subject: [PATCH 056/127] fix: SORT left ranges unsorted and crashed on missing
 arrays

---
 source/interpreter/tokens.c  |  6 +++++-
 source/subsystem/variables.c | 34 ++++++++++++++++++++++++----------
 2 files changed, 29 insertions(+), 11 deletions(-)

diff --git a/source/interpreter/tokens.c b/source/interpreter/tokens.c
index c341eb6..d8fe59b 100644
--- a/source/interpreter/tokens.c
+++ b/source/interpreter/tokens.c
@@ -113,7 +113,7 @@ const char* cmd_format[] = {
 	"N,NNN","NN,NNN,NNNN","NN,NNN","N","NNSNNN","0,N","NN",//ICONSET
 	"NS","","S,SN","0",//NEW
 	"NNS,NNSN","S","v","","","SS",//RENAME
-	"L","NNa","0","S","","NNa","NN,NNN,NNNN",//SPANGLE
+	"L","NNAa","0","S","","NNAa","NN,NNN,NNNN",//SPANGLE
 	"NNN,NNNN","NN,NNNNNN","0,N","NNNNNN,NNNNNNN","NNN","NNN","NNN,NNNN","N",//SPPAGE
 	"NN,NNN,NNNN,NNNNN,NNNNNN","NN,NNN","NNNNNN,NNNNNNNN","NNN","nn,ss",//SWAP
 	"Snnn",//TMREAD
@@ -1201,12 +1201,14 @@ int tok_eval(struct tokenizer* state){
 					// separator between TRUE/FALSE paths of the IF.
 					tok_eval_clean_stack(&e, 0);
 					e.result[e.result_i++] = state->tokens[i];
+					is_sort = false;
 					continue;
 				} else if (state->tokens[i].cmd == CMD_SORT || state->tokens[i].cmd == CMD_RSORT){
 					// SORT, RSORT need arrays for arguments >2, so mark these functions
 					// TODO:IMPL:NONE Determine a way to indicate arrays unambiguously (such as "A[]")
 					// and make it an option
 					is_sort = true;
+					e.argc_stack[0] = 0; // count arguments of this command only
 				} else if (state->tokens[i].cmd == CMD_DATA){
 					// DATA terminates the line - everything after it is parsed differently
 					state->state = TKR_NONE; // Tell tokenizer to start new line
@@ -1216,6 +1218,7 @@ int tok_eval(struct tokenizer* state){
 				} else {
 					// Any other "normal" command
 					is_dim = false;
+					is_sort = false;
 					// Note: is_for will not be always be reset because FOR
 					// needs to be kept to the newline/end of FOR/TO/STEP command
 					// including through other commands TO and STEP
@@ -1254,6 +1257,7 @@ int tok_eval(struct tokenizer* state){
 			// dim ends
 			tok_eval_clean_stack(&e, 0);
 			is_dim = false;
+			is_sort = false;
 			implicit_commas = true;
 			if (is_for){
 				e.result[e.result_i++] = (struct token){.type=loop_begin, .ofs=0, .len=1, .prio=0};
diff --git a/source/subsystem/variables.c b/source/subsystem/variables.c
index f40f36e..2bc4857 100644
--- a/source/subsystem/variables.c
+++ b/source/subsystem/variables.c
@@ -39,10 +39,6 @@ typedef bool(*comparison)(union value, union value);
 // based on
 // https://en.wikipedia.org/wiki/Quicksort?useskin=monobook#cite_ref-:2_13-2
 int _partition(union value* data, union value** extra, int start, int end, comparison comp){
-	if (end - start <= 1){
-		return start; // already sorted
-	}
-
 	union value pivot = data[start+(end - start)/2]; // select a random pivot
 	--start;
 	++end;
@@ -54,7 +50,8 @@ int _partition(union value* data, union value** extra, int start, int end, compa
 		do {
 			--end;
 		} while (comp(pivot, data[end]));
-		if (start >= end) return start;
+		// Note: start <= x <= end, so end is the last index of the lower half
+		if (start >= end) return end;
 
 		_sort_swap(data, extra, start, end);
 	}
@@ -99,11 +96,17 @@ bool str_rsort_comp(union value a, union value b){
 
 void quick_sort(union value* data, union value** extra, int start, int end, comparison comp){
 	// https://en.wikipedia.org/wiki/Quicksort?useskin=monobook#Hoare_partition_scheme
-	if (end - start <= 1) return;
-
-	int p = _partition(data, extra, start, end, comp);
-	quick_sort(data, extra, start, p, comp);
-	quick_sort(data, extra, p + 1, end, comp);
+	while (start < end){
+		int p = _partition(data, extra, start, end, comp);
+		// Recurse on the smaller half only, to limit the depth of the call stack
+		if (p - start < end - (p + 1)){
+			quick_sort(data, extra, start, p, comp);
+			start = p + 1;
+		} else {
+			quick_sort(data, extra, p + 1, end, comp);
+			end = p;
+		}
+	}
 }
 
 /// @note Does not correctly handle permuting the same array as is being sorted!
@@ -116,6 +119,9 @@ void _cmd_sort_shared(struct ptc* p, comparison comp){
 	}
 	// SORT start, size, arr, [arr1, arr2, ...]
 	union value* data = *(void**)stack_get(&p->stack, 2)->value.ptr;
+	if (!data){
+		ERROR(ERR_INVALID_ARGUMENT_VALUE); // array does not exist yet
+	}
 //	iprintf("%p\n", (void*)data);
 	int array_min_size = arr_size(data, ARR_DIM1);
 	// In concept this is fine but PTC doesn't allow it
@@ -124,6 +130,9 @@ void _cmd_sort_shared(struct ptc* p, comparison comp){
 	}
 	for (int k = 3; k < p->stack.stack_i; ++k){
 		extra[k-3] = *(union value**)stack_get(&p->stack, k)->value.ptr;
+		if (!extra[k-3]){
+			ERROR(ERR_INVALID_ARGUMENT_VALUE); // array does not exist yet
+		}
 		if ((int)arr_size(extra[k-3], ARR_DIM1) < array_min_size){
 			array_min_size = arr_size(extra[k-3], ARR_DIM1);
 		}
@@ -136,6 +145,11 @@ void _cmd_sort_shared(struct ptc* p, comparison comp){
 			ERROR(ERR_SORT_SAME_ARRAY);
 		}
 		extra[k-3] += 2; // move past dimension info
+		for (int j = 0; j < k-3; ++j){
+			if (extra[j] == extra[k-3]){
+				ERROR(ERR_SORT_SAME_ARRAY); // elements would be swapped twice
+			}
+		}
 	}
 //	iprintf("%d\n", array_min_size);
 	STACK_INT_RANGE(0,0,array_min_size-1,start);
-- 
2.43.0


From 9873afa9f5a942ef2e23a44168b518781b559e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:14 +0000
Subject: [PATCH 057/127] fix: READ past the last item crashed, long numbers
 were split or wrapped

---
 source/interpreter/data.c | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/source/interpreter/data.c b/source/interpreter/data.c
index 83d99b1..ecd57cc 100644
--- a/source/interpreter/data.c
+++ b/source/interpreter/data.c
@@ -33,7 +33,6 @@ int read_one_u8(struct ptc* p, const u8* src, size_t len, struct stack_entry* de
 		// Assign new string to variable
 		set_str_var(dest->value.ptr, s);
 	} else if (dest->type == (VAR_VARIABLE | VAR_NUMBER)){
-		u8 conversion[16] = {0}; // this buffer size is very arbitrary
 		// skip leading spaces, but only for numbers
 		// strings may contain spaces when quoted
 		while (i < len && src[i] == ' '){
@@ -43,19 +42,21 @@ int read_one_u8(struct ptc* p, const u8* src, size_t len, struct stack_entry* de
 			return READ_ONE_ERR;
 		}
 		// Read number!
-		for (; i < len && i - start < 16; ++i){
+		const size_t digits = i;
+		for (; i < len && src[i] != BC_DATA_DELIM; ++i){
 			u8 c = src[i];
-			if (is_number(c) || c == '-' || c == '.'){
-				conversion[i - start] = c;
-			} else if (c == BC_DATA_DELIM){ 
-				break; // stop reading here
-			} else {
+			if (!is_number(c) && c != '-' && c != '.'){
 				return READ_ONE_ERR;
 			}
-			iprintf(":%c", conversion[i - start]);
+			iprintf(":%c", c);
 		}
 		// Convert!
-		*((fixp*)dest->value.ptr) = u8_to_num(conversion, i - start);
+		int64_t number = u8_to_num((u8*)&src[digits], i - digits);
+		if (number < INT32_MIN || number > INT32_MAX){
+			p->exec.error = ERR_OVERFLOW;
+			return READ_ONE_ERR;
+		}
+		*((fixp*)dest->value.ptr) = number;
 	} else {
 		return READ_ONE_ERR;
 	}
@@ -98,6 +99,10 @@ void cmd_read(struct ptc* p){
 	iprintf("READ from: ");
 	// Iterate over variables on stack
 	for (int i = 0; i < p->stack.stack_i; ++i){
+		if (p->exec.data_index == BC_SCAN_NOT_FOUND){
+			ERROR(ERR_OUT_OF_DATA); // previous variable took the last item
+		}
+		data_block = (u8*)&p->exec.code.data[p->exec.data_index];
 		block_size = data_block[1];
 		iprintf("src=%d size=%d", (int)p->exec.data_index, block_size);
 		iprintf(" data=\"%.*s\"", block_size, &data_block[DATA_DATA_OFS + p->exec.data_offset]);
@@ -117,7 +122,6 @@ void cmd_read(struct ptc* p){
 		if (p->exec.data_offset >= block_size){
 			// search for next data block
 			find_data(p);
-			data_block = (u8*)&p->exec.code.data[p->exec.data_index];
 		}
 	}
 	iprintf("\n");
-- 
2.43.0


From 11f5020d1b1016f9e61e1567226bf5f8acaa9ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:23 +0000
Subject: [PATCH 058/127] fix: one letter variables could be refused when
 compiled with variable IDs

---
 source/interpreter/tokens.c | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/source/interpreter/tokens.c b/source/interpreter/tokens.c
index d8fe59b..d808593 100644
--- a/source/interpreter/tokens.c
+++ b/source/interpreter/tokens.c
@@ -951,7 +951,9 @@ int tok_code(struct tokenizer* state){
 				// A [wide] -> (VA [regular var-name access] || iA [id-based access])
 				// This can be broken if hash collisions lead to IDs greater than 256.
 				bool is_array_type = state->tokens[i].type == array_name || state->tokens[i].type == array_actual;
-				if ((state->opts & TOKOPT_VARIABLE_IDS) && state->tokens[i].type != dim_arr){
+				bool use_id = (state->opts & TOKOPT_VARIABLE_IDS) && state->tokens[i].type != dim_arr;
+				ptrdiff_t var_id = 0;
+				if (use_id){
 					// Get variable index in table
 					int len = state->tokens[i].len;
 					int t = state->source->data[state->tokens[i].ofs + len - 1] == '$' ? VAR_STRING : VAR_NUMBER;
@@ -963,20 +965,20 @@ int tok_code(struct tokenizer* state){
 						return state->system->vars.error;
 					}
 //					iprintf("var %p: type=%d name=%s data=%d\n", (void*)v, v->type, v->name, v->value.number);
-					ptrdiff_t var_id = v - &state->system->vars.vars[0];
+					var_id = v - &state->system->vars.vars[0];
 					// note: turns out pointer arithmetic essentially performs the index conversion for you
 					// var_id contains the index into vars[] of this variable
 					iprintf("%zd, %.*s\n", var_id, state->tokens[i].len, &state->source->data[state->tokens[i].ofs]);
+					if (var_id >= 256 && len == 1){
+						// The longer ID does not fit in place of a single character
+						use_id = false;
+					}
+				}
+				if (use_id){
 					if (var_id < 256){
 						data[(*size)++] = BC_VARIABLE_ID_SMALL;
 						data[(*size)++] = (var_id & 0xff);
 					} else {
-						if (len == 1){
-							// Length invariant failed. 
-							return ERR_LENGTH_INVARIANT_BROKEN;
-							// TODO:ERR:NONE Fallback to regular variable name structure instead?
-							// (potential issues: CLEAR)
-						}
 						data[(*size)++] = BC_VARIABLE_ID;
 						data[(*size)++] = (var_id & 0x0000ff);
 						data[(*size)++] = (var_id & 0x00ff00) >> 8;
-- 
2.43.0


From 269e0d6bf1be84d16b29702bb293ae462ee74fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:22 +0000
Subject: [PATCH 059/127] fix: COLOR accepted colours out of range and mixed
 foreground into background

---
 source/subsystem/console.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/source/subsystem/console.c b/source/subsystem/console.c
index 08e9ba6..abe80c5 100644
--- a/source/subsystem/console.c
+++ b/source/subsystem/console.c
@@ -151,13 +151,15 @@ void cmd_print(struct ptc* p){
 
 void cmd_color(struct ptc* p){
 	struct console* c = &p->console;
+	u8 fg, bg;
 	if (p->stack.stack_i == 2){
-		c->col = 0;
-		c->col |= STACK_INT(0); // FG
-		c->col |= STACK_INT(1) << 4; // BG
+		STACK_INT_RANGE(0,0,15,fg);
+		STACK_INT_RANGE(1,0,15,bg);
+		c->col = fg | bg << 4;
 	} else if (p->stack.stack_i == 1){
+		STACK_INT_RANGE(0,0,15,fg);
 		c->col &= ~COL_FG_MASK; // clear FG value
-		c->col |= STACK_INT(0); // FG
+		c->col |= fg;
 	}
 	p->stack.stack_i = 0;
 }
-- 
2.43.0


From 210fc4b18985b1d172cc6eca11955a0e95e8b114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:38 +0000
Subject: [PATCH 060/127] fix: INPUT prompts ending at the bottom right corner
 wrote below the screen

---
 source/subsystem/console.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/subsystem/console.c b/source/subsystem/console.c
index abe80c5..6ab25b5 100644
--- a/source/subsystem/console.c
+++ b/source/subsystem/console.c
@@ -291,8 +291,9 @@ void con_prompt(struct console* con, void* prompt_str){
 	// Displays prompt string
 	if (prompt_str) // only display string if it exists
 		con_puts(con, prompt_str);
-	con_put(con, to_wide('?'));
+	con_puts(con, "S\1?"); // scrolls first if the prompt filled the last line
 	if (con->x) con_newline(con, true); // only newline if necessary for user to have full line of input
+	else con_scroll(con); // entry line must be on the screen
 }
 
 void con_reprompt(struct console* con, void* prompt_str){
-- 
2.43.0


From fa15c8c6a041a0decd18c82ecdbdbabd450b9a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:38 +0000
Subject: [PATCH 061/127] fix: INPUT and LINPUT crashed when the prompt was a
 string variable

---
 source/subsystem/console.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/subsystem/console.c b/source/subsystem/console.c
index 6ab25b5..2369092 100644
--- a/source/subsystem/console.c
+++ b/source/subsystem/console.c
@@ -317,7 +317,7 @@ void cmd_input(struct ptc* p){
 		if (ARG(1)->type == STACK_OP && ARG(1)->value.number == OP_SEMICOLON){
 			// check prompt string
 			if (ARG(0)->type & VAR_STRING){
-				prompt_str = ARG(0)->value.ptr;
+				prompt_str = STACK_STR(0);
 				index = 2; // variables start here
 			} else {
 				ERROR(ERR_TYPE_MISMATCH);
@@ -430,7 +430,7 @@ void cmd_linput(struct ptc* p){
 	struct stack_entry* e;
 	if (p->stack.stack_i == 3){
 		// check prompt string
-		prompt_str = ARG(0)->value.ptr;
+		prompt_str = STACK_STR(0);
 		e = ARG(2);
 	} else {
 		e = ARG(0);
-- 
2.43.0


From 9b9c32f485f0e781e07397b24080ebd98ba40cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:38 +0000
Subject: [PATCH 062/127] fix: deleting in a full entry line read past the end
 of the line

---
 source/subsystem/console.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/subsystem/console.c b/source/subsystem/console.c
index 2369092..d0b80f0 100644
--- a/source/subsystem/console.c
+++ b/source/subsystem/console.c
@@ -240,7 +240,7 @@ u16* shared_input(struct ptc* p){
 		} else if ((keyboard == 15 || check_pressed(&p->input, BUTTON_ID_Y))){
 			// Copy characters back
 			if (out_index > 0){
-				for (int i = out_index-1; i < (int)out_index_max; ++i){
+				for (int i = out_index-1; i < (int)out_index_max-1; ++i){
 					outcol[i] = outcol[i+1];
 					output[i] = output[i+1];
 				}
@@ -250,7 +250,7 @@ u16* shared_input(struct ptc* p){
 		} else if (keyboard == 67){
 			// Copy characters back
 			if (out_index < out_index_max){
-				for (int i = out_index; i < (int)out_index_max; ++i){
+				for (int i = out_index; i < (int)out_index_max-1; ++i){
 					outcol[i] = outcol[i+1];
 					output[i] = output[i+1];
 				}
-- 
2.43.0


From feb429744bc3c8dc6550e8ba64502ccda28c12aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:38 +0000
Subject: [PATCH 063/127] fix: the insert key had no effect on text entry

---
 source/subsystem/console.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/subsystem/console.c b/source/subsystem/console.c
index d0b80f0..20d169d 100644
--- a/source/subsystem/console.c
+++ b/source/subsystem/console.c
@@ -224,6 +224,7 @@ u16* shared_input(struct ptc* p){
 		// cases to run without waiting for an update from another thread
 		inkey = get_inkey(&p->input);
 		keyboard = get_pressed_key(p);
+		bool replace = !(p->panel.cursor & PNL_INSERT);
 		while (!inkey && !con->test_mode && t == get_time(&p->time) && !p->exec.error){
 			// sleep for user input
 			struct timespec tspec = {.tv_nsec=FRAME_TENTH_NS};
@@ -258,8 +259,8 @@ u16* shared_input(struct ptc* p){
 			}
 		} else if (inkey == '\r'){
 			// don't add this one
-		} else if (inkey && out_index_max < CONSOLE_WIDTH){
-			if ((p->panel.cursor & ~PNL_INSERT)){ // REPLACE mode
+		} else if (inkey && (replace ? out_index : out_index_max) < CONSOLE_WIDTH){
+			if (replace){ // REPLACE mode
 				outcol[out_index] = con->col;
 				output[out_index++] = inkey;
 				if (out_index > out_index_max)
-- 
2.43.0


From df363c900a8d8380108344871fb514b83733493f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:28 +0000
Subject: [PATCH 064/127] fix: keys typed in the frame of a button press were
 lost during INPUT

---
 source/subsystem/console.c | 42 ++++++++++++++++++++------------------
 1 file changed, 22 insertions(+), 20 deletions(-)

diff --git a/source/subsystem/console.c b/source/subsystem/console.c
index 20d169d..d377521 100644
--- a/source/subsystem/console.c
+++ b/source/subsystem/console.c
@@ -230,11 +230,31 @@ u16* shared_input(struct ptc* p){
 			struct timespec tspec = {.tv_nsec=FRAME_TENTH_NS};
 			thrd_sleep(&tspec, NULL);
 		}
+		// Typed characters come first: only when there are none, a frame has passed
+		// and the buttons are new.
+		if (inkey){
+			if (inkey != '\r' && (replace ? out_index : out_index_max) < CONSOLE_WIDTH){
+				if (replace){ // REPLACE mode
+					outcol[out_index] = con->col;
+					output[out_index++] = inkey;
+					if (out_index > out_index_max)
+						++out_index_max;
+				} else { // INSERT mode
+					// Copy characters past insertion point forward
+					for (int i = out_index_max-1; i >= (int)out_index; --i){
+						outcol[i+1] = outcol[i];
+						output[i+1] = output[i];
+					}
+					outcol[out_index] = con->col;
+					output[out_index++] = inkey;
+					++out_index_max;
+				}
+			}
 		// Check for special keys
 		// redraw on first frame of hold and first frame of release
 		// TODO:IMPL:LOW Pressing L+R inverts the selection again for the duration held.
 		// it should keep the shift state.
-		if (((p->input.button ^ p->input.old_button) & BUTTON_L) ||
+		} else if (((p->input.button ^ p->input.old_button) & BUTTON_L) ||
 		    ((p->input.button ^ p->input.old_button) & BUTTON_R)){
 			p->panel.shift ^= PNL_SHIFT;
 			refresh_panel(p);
@@ -257,24 +277,6 @@ u16* shared_input(struct ptc* p){
 				}
 				output[--out_index_max] = 0;
 			}
-		} else if (inkey == '\r'){
-			// don't add this one
-		} else if (inkey && (replace ? out_index : out_index_max) < CONSOLE_WIDTH){
-			if (replace){ // REPLACE mode
-				outcol[out_index] = con->col;
-				output[out_index++] = inkey;
-				if (out_index > out_index_max)
-					++out_index_max;
-			} else { // INSERT mode
-				// Copy characters past insertion point forward
-				for (int i = out_index_max-1; i >= (int)out_index; --i){
-					outcol[i+1] = outcol[i];
-					output[i+1] = output[i];
-				}
-				outcol[out_index] = con->col;
-				output[out_index++] = inkey;
-				++out_index_max;
-			}
 		} else if (check_pressed(&p->input, BUTTON_ID_LEFT)){
 			out_index -= out_index > 0;
 		} else if (check_pressed(&p->input, BUTTON_ID_RIGHT)){
@@ -282,7 +284,7 @@ u16* shared_input(struct ptc* p){
 		}
 		p->console.x = out_index;
 	} while (!p->exec.error && inkey != '\r'
-			&& !check_pressed_manual(&p->input, BUTTON_ID_A, 15, 4));
+			&& (inkey || !check_pressed_manual(&p->input, BUTTON_ID_A, 15, 4)));
 	p->panel.type = old_panel;
 	p->console.cursor_visible = false;
 	return output;
-- 
2.43.0


From e65749167b60613f4bc84393a19710c56668e94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:40 +0000
Subject: [PATCH 065/127] fix: INPUT split, converted and stored entries
 wrongly

The last character of a full line was dropped, text left on the line was taken
as typed, numbers out of range wrapped, variables changed although the entry
was refused later, old wide strings were not released and full string memory
crashed. LINPUT shared the last two, and left the cursor off the line on a break.
---
 source/subsystem/console.c | 182 ++++++++++++++++---------------------
 1 file changed, 79 insertions(+), 103 deletions(-)

diff --git a/source/subsystem/console.c b/source/subsystem/console.c
index d377521..ff5f5c3 100644
--- a/source/subsystem/console.c
+++ b/source/subsystem/console.c
@@ -199,7 +199,9 @@ void cmd_cls(struct ptc* p){
 
 #define FRAME_TENTH_NS (1000000000/600)
 
-u16* shared_input(struct ptc* p){
+// Returns the entry line and stores the number of characters typed there in len.
+// Text that was already on the line is not part of the entry.
+u16* shared_input(struct ptc* p, int* len){
 	// TODO:IMPL:LOW Use BREPEAT values if set
 	// TODO:IMPL:MED Blinking text cursor
 	// TODO:TEST:MED Write tests for color while removing characters
@@ -287,6 +289,7 @@ u16* shared_input(struct ptc* p){
 			&& (inkey || !check_pressed_manual(&p->input, BUTTON_ID_A, 15, 4)));
 	p->panel.type = old_panel;
 	p->console.cursor_visible = false;
+	*len = out_index_max;
 	return output;
 }
 
@@ -306,6 +309,55 @@ void con_reprompt(struct console* con, void* prompt_str){
 	con_prompt(con, prompt_str);
 }
 
+/// Converts an entered value to a number.
+/// @return false if the text isn't a number or the number is too large
+static bool input_number(const u16* text, int len, fixp* number){
+	u8 buf[CONSOLE_WIDTH];
+	int digits = 0;
+	int points = 0;
+	while (len && text[len-1] == to_wide(' ')) --len; // spaces after the number are ignored
+	for (int i = 0; i < len; ++i){
+		int c = to_char(text[i]);
+		if (is_number(c)) ++digits;
+		else if (c == '.') ++points;
+		else if (c != '-' || i) return false;
+		buf[i] = c;
+	}
+	if (!digits || points > 1) return false;
+	int64_t n = u8_to_num(buf, len);
+	if (n < INT32_MIN || n > INT32_MAX) return false;
+	*number = n;
+	return true;
+}
+
+/// Stores entered text to a string variable.
+static bool input_string(struct ptc* p, struct string** dest, const u16* text, int len){
+	struct string* s = get_new_str(&p->strs);
+	if (!s){
+		p->exec.error = ERR_OUT_OF_MEMORY;
+		return false;
+	}
+	// If string defaulted to STRING_CHAR, promote it to STRING_WIDE as needed
+	// As long as MAX_STRLEN > CONSOLE_WIDTH / sizeof(u16), this is safe,
+	// even when using memory allocated for STRING_CHAR.
+	// If string defaulted to STRING_WIDE, it can stay that way, there's no difference.
+	s->len = len;
+	for (int i = 0; i < len; ++i){
+		if (!is_char(text[i])){
+			s->type = STRING_WIDE;
+		}
+	}
+	for (int i = 0; i < len; ++i){
+		if (s->type == STRING_WIDE){
+			s->ptr.w[i] = text[i];
+		} else {
+			s->ptr.s[i] = to_char(text[i]);
+		}
+	}
+	set_str_var(dest, s);
+	return true;
+}
+
 void cmd_input(struct ptc* p){
 	struct console* con = &p->console;
 	// INPUT [prompt;]var[,var...]
@@ -338,97 +390,50 @@ void cmd_input(struct ptc* p){
 	
 	// Prompt user for input
 	u16* output;
-//	u8 out_index;
+	int out_len;
+	int field[CONSOLE_WIDTH+2]; // start of each entered value
+	fixp number[CONSOLE_WIDTH+1];
 	bool valid = false;
 	while (!valid){
-		valid = true;
-		output = shared_input(p);
+		output = shared_input(p, &out_len);
 		if (p->exec.error) break;
 		// scan commas
-		int commas = 0;
-		for (int x = 0; x < CONSOLE_WIDTH; ++x){
-			commas += con_text_getc(con, x, con->y) == to_wide(',');
-		}
-		if (len != commas + 1){
-			valid = false;
-			con_reprompt(con, prompt_str);
-			continue;
+		int fields = 1;
+		field[0] = 0;
+		for (int x = 0; x < out_len; ++x){
+			if (output[x] == to_wide(',')) field[fields++] = x+1;
 		}
-		u8 conversion_copy[CONSOLE_WIDTH];
-		int prev_i = 0;
-		int out_i = 0;
-		
-		for (int i = 0; i < len; ){
+		field[fields] = out_len+1;
+		// All values must fit before any variable is changed
+		valid = len == fields;
+		for (int i = 0; valid && i < len; ++i){
 			struct stack_entry* e = ARG(index+i);
-			u8 c = to_char(output[out_i]);
-			conversion_copy[out_i++] = c;
 			if (e->type == (VAR_NUMBER | VAR_VARIABLE)){
-				// validate first entry is numeric
-				if (is_number(c) || c == '.' || c == '-'){
-				} else if (c == ',' || c == '\0' || c == ' ' || out_i >= CONSOLE_WIDTH){
-					// convert from previous to out_i
-					if (out_i - prev_i - 1 == 0){
-						valid = false;
-						break;
-					}
-					fixp n = u8_to_num(&conversion_copy[prev_i], out_i - prev_i - 1);
-					prev_i = out_i;
-					*(fixp*)e->value.ptr = n; //store result to variable
-					++i;
-					
-				} else {
-					// invalid character
-					valid = false;
-					break;
-				}
-			} else if (e->type == (VAR_STRING | VAR_VARIABLE)){
-				if (c == ',' || c == '\0' || out_i >= CONSOLE_WIDTH){
-					struct string* s = get_new_str(&p->strs);
-					
-					if (*(void**)e->value.ptr != NULL && **(char**)e->value.ptr == STRING_CHAR){
-						(*(struct string**)e->value.ptr)->uses--;
-					}
-					(*(struct string**)e->value.ptr) = s;
-					
-					// TODO:TEST:LOW Check that wide strings work here
-					bool require_wide = false;
-					for (int j = prev_i; j < out_i; ++j){
-						if (!is_char(output[j])){
-							require_wide = true;
-							break;
-						}
-					}
-					
-					s->type = require_wide ? STRING_WIDE : STRING_CHAR;
-					s->uses = 1;
-					s->len = out_i - prev_i - 1;
-					for (int j = prev_i; j < out_i; ++j){
-						if (require_wide){
-							s->ptr.w[j - prev_i] = output[j];
-						} else {
-							s->ptr.s[j - prev_i] = conversion_copy[j];
-						}
-					}
-					prev_i = out_i;
-					++i;
-				}
-			} else {
+				valid = input_number(output + field[i], field[i+1] - field[i] - 1, &number[i]);
+			} else if (e->type != (VAR_STRING | VAR_VARIABLE)){
 				// invalid argument type
 				p->exec.error = ERR_UNKNOWN_TYPE;
 				return;
 			}
 		}
-		// Note that this has to be after reading the characters, or the positions get messed up
 		if (!valid){
 			con_reprompt(con, prompt_str);
 		}
 	}
+	for (int i = 0; valid && i < len; ++i){
+		struct stack_entry* e = ARG(index+i);
+		if (e->type & VAR_NUMBER){
+			*(fixp*)e->value.ptr = number[i];
+		} else {
+			valid = input_string(p, e->value.ptr, output + field[i], field[i+1] - field[i] - 1);
+		}
+	}
 	con_newline(con, true); // from user entering the line successfully.
 }
 
 void cmd_linput(struct ptc* p){
 	struct console* con = &p->console;
-	// INPUT [prompt;]var$
+	// LINPUT [prompt;]var$
 	void* prompt_str = NULL;
 	struct stack_entry* e;
 	if (p->stack.stack_i == 3){
@@ -441,38 +446,9 @@ void cmd_linput(struct ptc* p){
 	
 	con_prompt(con, prompt_str);
 	
-	u16* output = shared_input(p);
-	if (p->exec.error) return;
-
-	// Now store the result to a new string
-	struct string* s = get_new_str(&p->strs);
-	
-	if (*(void**)e->value.ptr != NULL && **(char**)e->value.ptr == STRING_CHAR){
-		(*(struct string**)e->value.ptr)->uses--;
-	}
-	(*(struct string**)e->value.ptr) = s;
-	
-	// If string defaulted to STRING_CHAR, promote it to STRING_WIDE as needed
-	// As long as MAX_STRLEN > CONSOLE_WIDTH / sizeof(u16), this is safe,
-	// even when using memory allocated for STRING_CHAR.
-	// If string defaulted to STRING_WIDE, it can stay that way, there's no difference.
-	s->uses = 1;
-	s->len = 0;
-	for (int j = 0; j < CONSOLE_WIDTH; ++j){
-		if (!output[j]) break; // null character == end of string
-		if (!is_char(output[j])){
-			s->type = STRING_WIDE;
-		}
-		s->len += 1;
-	}
-
-	if (s->type == STRING_WIDE){
-		memcpy(s->ptr.w, output, s->len * sizeof(u16));
-	} else {
-		for (int j = 0; j < (int)s->len; ++j){
-			s->ptr.s[j] = to_char(output[j]);
-		}
-	}
+	int out_len;
+	u16* output = shared_input(p, &out_len);
+	if (!p->exec.error) input_string(p, e->value.ptr, output, out_len);
 	con_newline(con, true); // from user entering the line successfully.
 }
 
-- 
2.43.0


From f93c3e71e9f567a57e9f822c74d7697bb13e67dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:05 +0000
Subject: [PATCH 066/127] fix: BREPEAT changed the start time before refusing
 the interval

---
 source/subsystem/input.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/source/subsystem/input.c b/source/subsystem/input.c
index 05273c9..7c81e80 100644
--- a/source/subsystem/input.c
+++ b/source/subsystem/input.c
@@ -139,8 +139,11 @@ void cmd_brepeat(struct ptc* p){
 		p->input.times[id].start = 0;
 		p->input.times[id].repeat = 0;
 	} else {
-		STACK_INT_MIN(1,0,p->input.times[id].start);
-		STACK_INT_MIN(2,0,p->input.times[id].repeat);
+		int start, repeat;
+		STACK_INT_MIN(1,0,start);
+		STACK_INT_MIN(2,0,repeat);
+		p->input.times[id].start = start;
+		p->input.times[id].repeat = repeat;
 	}
 }
 
-- 
2.43.0


From 5dd368b5968c85eccf5495d0b60d506bd041e758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:40 +0000
Subject: [PATCH 067/127] fix: BGCOPY past the edge of the layer wrote outside
 it

---
 source/subsystem/background.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/subsystem/background.c b/source/subsystem/background.c
index 4d88e54..09599c4 100644
--- a/source/subsystem/background.c
+++ b/source/subsystem/background.c
@@ -293,6 +293,10 @@ void cmd_bgcopy(struct ptc* p){
 	// valid args: put tile
 	u16* bg = bg_page(p, p->background.page, layer);
 	
+	// Cells past the right and bottom edge of the layer are not copied
+	if (x3 + x2 - x1 > BG_WIDTH-1) { x2 = x1 + BG_WIDTH-1 - x3; }
+	if (y3 + y2 - y1 > BG_HEIGHT-1) { y2 = y1 + BG_HEIGHT-1 - y3; }
+	
 	if (y3 < y1 || (y3 == y1 && x3 < x1)){
 		for (int y = y1; y <= y2; ++y){
 			for (int x = x1; x <= x2; ++x){
-- 
2.43.0


From 226da964c8c91b32c475aa9f0fb80de7b306eb0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:42 +0000
Subject: [PATCH 068/127] fix: BGOFS with a time did not reach its target

---
 source/subsystem/background.c | 9 +++++----
 source/subsystem/background.h | 4 ++--
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/source/subsystem/background.c b/source/subsystem/background.c
index 09599c4..cf4f40b 100644
--- a/source/subsystem/background.c
+++ b/source/subsystem/background.c
@@ -29,8 +29,9 @@ void step_background(struct background* b){
 		for (int l = 0; l < BG_LAYERS; ++l){
 			struct bg_offset* bg = &b->ofs[p][l];
 			if (bg->time > 0){
-				bg->x += bg->step_x;
-				bg->y += bg->step_y;
+				// Covers the remaining distance in the remaining time
+				bg->x += ((int64_t)bg->dest_x - bg->x) / bg->time;
+				bg->y += ((int64_t)bg->dest_y - bg->y) / bg->time;
 				bg->time--;
 			}
 		}
@@ -186,8 +187,8 @@ void cmd_bgofs(struct ptc* p){
 	} else {
 		STACK_INT_MIN(3,0,time);
 		if (time){
-			b->step_x = (x - b->x) / time;
-			b->step_y = (y - b->y) / time;
+			b->dest_x = x;
+			b->dest_y = y;
 		} else {
 			b->x = x;
 			b->y = y;
diff --git a/source/subsystem/background.h b/source/subsystem/background.h
index 43eac72..09511f4 100644
--- a/source/subsystem/background.h
+++ b/source/subsystem/background.h
@@ -29,8 +29,8 @@ struct background {
 		fixp x;
 		fixp y;
 		
-		fixp step_x;
-		fixp step_y;
+		fixp dest_x;
+		fixp dest_y;
 		
 		fixp time;
 	} ofs[SCREEN_COUNT][BG_LAYERS]; // index order: ofs[page][layer]
-- 
2.43.0


From db16e41c46378a0a96e56e9e4043a24196735b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:47 +0000
Subject: [PATCH 069/127] fix: GPAGE with an illegal page still switched the
 screen

---
 source/subsystem/graphics.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/source/subsystem/graphics.c b/source/subsystem/graphics.c
index 2d6bc3b..5d89a7e 100644
--- a/source/subsystem/graphics.c
+++ b/source/subsystem/graphics.c
@@ -27,9 +27,13 @@ void cmd_gpage(struct ptc* p){
 	if (p->stack.stack_i == 1){
 		STACK_INT_RANGE(0,0,1,p->graphics.screen);
 	} else {
-		STACK_INT_RANGE(0,0,1,p->graphics.screen);
-		STACK_INT_RANGE(1,0,3,p->graphics.info[p->graphics.screen].drawpage);
-		STACK_INT_RANGE(2,0,3,p->graphics.info[p->graphics.screen].displaypage);
+		int screen, drawpage, displaypage;
+		STACK_INT_RANGE(0,0,1,screen);
+		STACK_INT_RANGE(1,0,3,drawpage);
+		STACK_INT_RANGE(2,0,3,displaypage);
+		p->graphics.screen = screen;
+		p->graphics.info[screen].drawpage = drawpage;
+		p->graphics.info[screen].displaypage = displaypage;
 	}
 }
 
-- 
2.43.0


From 383c3b9c08215b8735276279431bfea095a053d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:50 +0000
Subject: [PATCH 070/127] fix: GFILL and GBOX drew off-page edges on the page,
 nothing for swapped corners, and GBOX drew pixels twice

---
 source/subsystem/graphics.c | 47 ++++++++++++++++++++-----------------
 1 file changed, 26 insertions(+), 21 deletions(-)

diff --git a/source/subsystem/graphics.c b/source/subsystem/graphics.c
index 5d89a7e..c051cd9 100644
--- a/source/subsystem/graphics.c
+++ b/source/subsystem/graphics.c
@@ -56,6 +56,24 @@ void cmd_gcls(struct ptc* p){
 	}
 }
 
+// Orders the corners of a rectangle and limits them to just off the page
+static void order_corners(int* x1, int* y1, int* x2, int* y2){
+	if (*x1 > *x2){
+		int temp = *x1;
+		*x1 = *x2;
+		*x2 = temp;
+	}
+	if (*y1 > *y2){
+		int temp = *y1;
+		*y1 = *y2;
+		*y2 = temp;
+	}
+	*x1 = *x1 < 0 ? -1 : *x1 > GRP_WIDTH ? GRP_WIDTH : *x1;
+	*y1 = *y1 < 0 ? -1 : *y1 > GRP_HEIGHT ? GRP_HEIGHT : *y1;
+	*x2 = *x2 < 0 ? -1 : *x2 > GRP_WIDTH ? GRP_WIDTH : *x2;
+	*y2 = *y2 < 0 ? -1 : *y2 > GRP_HEIGHT ? GRP_HEIGHT : *y2;
+}
+
 void cmd_gfill(struct ptc* p){
 	//GFILL x1 y1 x2 y2 [c]
 	//TODO:ERR:LOW Check argument clamping accuracy
@@ -65,10 +83,7 @@ void cmd_gfill(struct ptc* p){
 	int y2 = STACK_INT(3);
 	u8 color;
 	
-	x1 = x1 < 0 ? 0 : x1 > GRP_WIDTH ? GRP_WIDTH : x1;
-	y1 = y1 < 0 ? 0 : y1 > GRP_HEIGHT ? GRP_HEIGHT : y1;
-	x2 = x2 < 0 ? 0 : x2 > GRP_WIDTH ? GRP_WIDTH : x2;
-	y2 = y2 < 0 ? 0 : y2 > GRP_HEIGHT ? GRP_HEIGHT : y2;
+	order_corners(&x1, &y1, &x2, &y2);
 	
 	if (p->stack.stack_i == 5){
 		STACK_INT_RANGE(4,0,255,color);
@@ -93,10 +108,7 @@ void cmd_gbox(struct ptc* p){
 	int y2 = STACK_INT(3);
 	u8 color;
 	
-	x1 = x1 < 0 ? 0 : x1 > GRP_WIDTH ? GRP_WIDTH : x1;
-	y1 = y1 < 0 ? 0 : y1 > GRP_HEIGHT ? GRP_HEIGHT : y1;
-	x2 = x2 < 0 ? 0 : x2 > GRP_WIDTH ? GRP_WIDTH : x2;
-	y2 = y2 < 0 ? 0 : y2 > GRP_HEIGHT ? GRP_HEIGHT : y2;
+	order_corners(&x1, &y1, &x2, &y2);
 	
 	if (p->stack.stack_i == 5){
 		int c = STACK_INT(4);
@@ -110,21 +122,14 @@ void cmd_gbox(struct ptc* p){
 	
 	u8* page = grp_drawpage(p);
 	
-	int x = x1;
-	int y = y1;
-	for (int_fast16_t x = x1; x <= x2; ++x){
-		grp_pixel(page,x,y,color,p->graphics.drawmode);
-	}
-	for (int_fast16_t y = y1; y <= y2; ++y){
-		grp_pixel(page,x,y,color,p->graphics.drawmode);
-	}
-	x = x2;
-	y = y2;
+	// Every pixel is drawn once (matters for GDRAWMD)
 	for (int_fast16_t x = x1; x <= x2; ++x){
-		grp_pixel(page,x,y,color,p->graphics.drawmode);
+		grp_pixel(page,x,y1,color,p->graphics.drawmode);
+		if (y1 != y2) grp_pixel(page,x,y2,color,p->graphics.drawmode);
 	}
-	for (int_fast16_t y = y1; y <= y2; ++y){
-		grp_pixel(page,x,y,color,p->graphics.drawmode);
+	for (int_fast16_t y = y1 + 1; y < y2; ++y){
+		grp_pixel(page,x1,y,color,p->graphics.drawmode);
+		if (x1 != x2) grp_pixel(page,x2,y,color,p->graphics.drawmode);
 	}
 	p->stack.stack_i = 0;
 }
-- 
2.43.0


From d39e8af7f55f8354fa2edc3458c743b648fcf8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:26 +0000
Subject: [PATCH 071/127] fix: long lines of GLINE drifted away from their end
 point

---
 source/subsystem/graphics.c | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/source/subsystem/graphics.c b/source/subsystem/graphics.c
index c051cd9..464935e 100644
--- a/source/subsystem/graphics.c
+++ b/source/subsystem/graphics.c
@@ -134,6 +134,17 @@ void cmd_gbox(struct ptc* p){
 	p->stack.stack_i = 0;
 }
 
+// Slopes have enough fraction bits for the longest possible lines
+#define LINE_SHIFT 32
+#define LINE_HALF ((int64_t)1 << (LINE_SHIFT - 1))
+
+// Slope rounded down, step > 0
+static inline int64_t line_slope(int change, int step){
+	int64_t scaled = change * ((int64_t)1 << LINE_SHIFT);
+	int64_t slope = scaled / step;
+	return slope * step > scaled ? slope - 1 : slope;
+}
+
 static inline void draw_line(int x1, int y1, int x2, int y2, u8* page, u8 color, bool drawmode){
 	// Draw a line :)
 	if (abs(x2 - x1) >= abs(y2 - y1)){
@@ -143,8 +154,6 @@ static inline void draw_line(int x1, int y1, int x2, int y2, u8* page, u8 color,
 		}
 		// Line has horizontal component
 		// x1 -> x2
-		fixp y_slope = ((((int64_t)(y2 - y1) << 32) / (x2 - x1)) >> (32 - FIXPOINT)) & 0xFFFFFFFF;
-		// 8.12 FP I guess
 		if (x1 > x2){
 			int temp = y1;
 			y1 = y2;
@@ -153,15 +162,14 @@ static inline void draw_line(int x1, int y1, int x2, int y2, u8* page, u8 color,
 			x1 = x2;
 			x2 = temp;
 		}
+		int64_t y_slope = line_slope(y2 - y1, x2 - x1);
 		for (int x = x1; x <= x2; ++x){
-			int y = FP_TO_INT(y_slope*(x-x1) + (1<<(FIXPOINT-1))) + y1;
+			int y = (int)((y_slope*(x-x1) + LINE_HALF) >> LINE_SHIFT) + y1;
 			
 			grp_pixel(page,x,y,color,drawmode);
 		}
 	} else {
 		// X-range <= Y-range
-		fixp x_slope = ((((int64_t)(x2 - x1) << 32) / (y2 - y1)) >> (32 - FIXPOINT)) & 0xFFFFFFFF;
-		// 8.12 FP I guess
 		if (y1 > y2){
 			int temp = y1;
 			y1 = y2;
@@ -170,8 +178,9 @@ static inline void draw_line(int x1, int y1, int x2, int y2, u8* page, u8 color,
 			x1 = x2;
 			x2 = temp;
 		}
+		int64_t x_slope = line_slope(x2 - x1, y2 - y1);
 		for (int y = y1; y <= y2; ++y){
-			int x = FP_TO_INT(x_slope*(y-y1) + (1<<(FIXPOINT-1))) + x1;
+			int x = (int)((x_slope*(y-y1) + LINE_HALF) >> LINE_SHIFT) + x1;
 			
 			grp_pixel(page,x,y,color,drawmode);
 		}
-- 
2.43.0


From 6c8d4a3f063ef546d1ad775b5713ff1f2cc54d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:29 +0000
Subject: [PATCH 072/127] fix: GCIRCLE in GDRAWMD mode erased the points where
 its segments meet and was not closed

---
 source/subsystem/graphics.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/source/subsystem/graphics.c b/source/subsystem/graphics.c
index 464935e..2698eff 100644
--- a/source/subsystem/graphics.c
+++ b/source/subsystem/graphics.c
@@ -451,17 +451,23 @@ void cmd_gcircle(struct ptc* p){
 	u8* page = grp_drawpage(p);
 	int drawmode = p->graphics.drawmode;
 	// TODO:IMPL:LOW angle range version
+	if (r == 0){
+		grp_pixel(page,x,y,color,drawmode);
+		return;
+	}
 	int angle_units = r + 16;
 	// this implementation will be a bit slow it's just to have <something>
 	for (int i = 0; i < angle_units; ++i){
 		double angle = 2.0 * PI * i / angle_units;
-		double angle2 = 2.0 * PI * (i + 1) / angle_units;
+		double angle2 = 2.0 * PI * ((i + 1) % angle_units) / angle_units;
 		int x1 = x + r * cos(angle);
 		int y1 = y + r * sin(angle);
 		int x2 = x + r * cos(angle2);
 		int y2 = y + r * sin(angle2);
 		
 		draw_line(x1,y1,x2,y2,page,color,drawmode);
+		// the end point is drawn again as start of the next segment
+		if (drawmode) grp_pixel(page,x2,y2,color,drawmode);
 	}
 }
 
-- 
2.43.0


From e1e80116383e88c268ddbae7c2ac099364c41309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:31 +0000
Subject: [PATCH 073/127] fix: GPUTCHR skipped the top row, changed the palette
 before failing, read other memory for resources without characters

---
 source/subsystem/graphics.c | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/source/subsystem/graphics.c b/source/subsystem/graphics.c
index 2698eff..3fba8a1 100644
--- a/source/subsystem/graphics.c
+++ b/source/subsystem/graphics.c
@@ -252,13 +252,21 @@ void cmd_gputchr(struct ptc* p){
 	STACK_INT_RANGE(4,0,15,pal);
 	size = STACK_INT(5);
 	if (size == 1 || size == 2 || size == 4 || size == 8){
+		// pointer to base resource
+		struct res_info i = get_verified_resource_type(p, resource);
+		if (p->exec.error) return;
+		if (i.type_id != TYPE_CHR){
+			ERROR(ERR_INVALID_RESOURCE_TYPE); // TODO:ERR:MED Check this is correct
+		}
+		u8* src = i.data;
+
 		// Copy colors from character resource specified
 		// BG* -> COL0
 		// SP* -> COL1
 		char col_resource[] = "COLX\0";
 		col_resource[3] = str_at_char(resource, 0) == 'B' ? '0' : '1';
 		// take page hint from resource given
-		char maybe_page = str_at_char(resource, str_len(resource) - 1);
+		char maybe_page = i.type[MAX_RESOURCE_TYPE_LENGTH - 1];
 		if (maybe_page == 'L' || maybe_page == 'U'){
 			col_resource[4] = maybe_page;
 		}
@@ -269,12 +277,6 @@ void cmd_gputchr(struct ptc* p){
 		iprintf("GPUTCHR palette copy %s(%p) %s%c(%p)\n", col_resource, (void*)col_src, "COL2", (p->graphics.screen ? 'L' : 'U'), (void*)col_dest);
 		p->res.regen_col = true;
 
-		// pointer to base resource
-		struct res_info i = get_verified_resource_type(p, resource);
-		u8* src = i.data;
-		if (!src){
-			ERROR(ERR_INVALID_RESOURCE_TYPE); // TODO:ERR:MED Check this is correct
-		}
 		// pointer to relevant character
 		src = &src[CHR_UNIT_SIZE * chr];
 
@@ -289,7 +291,7 @@ void cmd_gputchr(struct ptc* p){
 					for (int j = 0; j < size; ++j){
 						int xp = x_start + x*size + j;
 						int yp = y_start + y*size + i;
-						if (col1 && xp >= 0 && xp < GRP_WIDTH && yp && yp < GRP_HEIGHT){
+						if (col1 && xp >= 0 && xp < GRP_WIDTH && yp >= 0 && yp < GRP_HEIGHT){
 							grp_pixel(dest, xp, yp, 16*pal+col1, p->graphics.drawmode);
 						}
 					}
@@ -298,7 +300,7 @@ void cmd_gputchr(struct ptc* p){
 					for (int j = 0; j < size; ++j){
 						int xp = x_start + x*size + j + size;
 						int yp = y_start + y*size + i;
-						if (col2 && xp >= 0 && xp < GRP_WIDTH && yp && yp < GRP_HEIGHT){
+						if (col2 && xp >= 0 && xp < GRP_WIDTH && yp >= 0 && yp < GRP_HEIGHT){
 							grp_pixel(dest, xp, yp, 16*pal+col2, p->graphics.drawmode);
 						}
 					}
-- 
2.43.0


From c76b95c5e44a37c6ce0f1149e4d91f31fa8a5375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:54 +0000
Subject: [PATCH 074/127] fix: GCOPY of huge areas hung

---
 source/subsystem/graphics.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/source/subsystem/graphics.c b/source/subsystem/graphics.c
index 3fba8a1..95c54b1 100644
--- a/source/subsystem/graphics.c
+++ b/source/subsystem/graphics.c
@@ -395,6 +395,12 @@ void cmd_gcopy(struct ptc* p){
 		y2 = temp;
 	}
 	
+	// Leave out what lies off the destination page
+	if (x3 < 0) { x1 -= x3; x3 = 0; }
+	if (y3 < 0) { y1 -= y3; y3 = 0; }
+	if (x2 > x1 - x3 + GRP_WIDTH-1) { x2 = x1 - x3 + GRP_WIDTH-1; }
+	if (y2 > y1 - y3 + GRP_HEIGHT-1) { y2 = y1 - y3 + GRP_HEIGHT-1; }
+	
 	// TODO:TEST:MED Check that this works with offscreen coords
 	iprintf("gcopy %d,%d,%d,%d,%d,%d\n", x1, y1, x2, y2, x3, y3);
 	if (y3 < y1 || (y3 == y1 && x3 < x1)){
-- 
2.43.0


From ca259b8bb3f38707ce577d3177bd854093e8dd62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:02 +0000
Subject: [PATCH 075/127] fix: GPAINT never ended when painted pixels still
 matched and read outside the page for a start off the page

---
 source/subsystem/graphics.c | 36 ++++++++++++++++++++++++++----------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/source/subsystem/graphics.c b/source/subsystem/graphics.c
index 95c54b1..829bf19 100644
--- a/source/subsystem/graphics.c
+++ b/source/subsystem/graphics.c
@@ -481,11 +481,24 @@ void cmd_gcircle(struct ptc* p){
 
 // Based on "combined-scan-and-fill" algorithm listed at
 // https://en.wikipedia.org/wiki/Flood_fill?useskin=monobook
+static inline bool inside_page(int x, int y){
+	return x >= 0 && x < GRP_WIDTH && y >= 0 && y < GRP_HEIGHT;
+}
+
 // match: positive = only fill this color negative = fill any other color
-static inline bool inside(u8* data, int x, int y, int match){
-	if (x < 0 || x >= GRP_WIDTH || y < 0 || y >= GRP_HEIGHT) return 0;
+static inline bool inside(const u8* data, const u8* done, int x, int y, int match){
+	if (!inside_page(x, y)) return 0;
 	
-	return match >= 0 ? (data[grp_index(x,y)] == match) : (data[grp_index(x,y)] != -match - 1); // matching first color
+	// never paint a pixel twice: a painted pixel can still match
+	int i = grp_index(x,y);
+	if (done[i / 8] & (1 << (i % 8))) return 0;
+	return match >= 0 ? (data[i] == match) : (data[i] != -match - 1); // matching first color
+}
+
+static inline void paint(u8* data, u8* done, int x, int y, u8 color){
+	int i = grp_index(x,y);
+	data[i] = color;
+	done[i / 8] |= 1 << (i % 8);
 }
 
 #define PAINT_STACK_MAX 256
@@ -521,6 +534,8 @@ void cmd_gpaint(struct ptc* p){
 		c = p->graphics.color;
 	}
 	u8* data = p->res.grp[p->graphics.info[p->graphics.screen].drawpage];
+	static u8 done[GRP_SIZE / 8]; // pixels painted by this statement
+	memset(done, 0, sizeof(done));
 
 	int match;
 	if (p->stack.stack_i > 3){
@@ -528,8 +543,9 @@ void cmd_gpaint(struct ptc* p){
 		STACK_INT_RANGE(3,0,255,b);
 		match = -1 - b;
 	} else {
-		match = data[grp_index(x,y)];
+		match = inside_page(x, y) ? data[grp_index(x,y)] : 0;
 	}
+	if (!inside_page(x, y)) return; // nothing to paint
 	int stack_i = 0;
 	u32 stack[PAINT_STACK_MAX];
 	
@@ -541,9 +557,9 @@ void cmd_gpaint(struct ptc* p){
 		PAINT_STACK_GET(x1, x2, y, dy);
 		
 		x = x1;
-		if (inside(data, x, y, match)){
-			while(inside(data, x-1, y, match)){
-				data[grp_index(x-1, y)] = c;
+		if (inside(data, done, x, y, match)){
+			while(inside(data, done, x-1, y, match)){
+				paint(data, done, x-1, y, c);
 				--x;
 			}
 			if (x < x1){
@@ -551,8 +567,8 @@ void cmd_gpaint(struct ptc* p){
 			}
 		}
 		while(x1 <= x2){
-			while(inside(data, x1, y, match)){
-				data[grp_index(x1, y)] = c;
+			while(inside(data, done, x1, y, match)){
+				paint(data, done, x1, y, c);
 				++x1;
 			}
 			if (x1 > x){
@@ -562,7 +578,7 @@ void cmd_gpaint(struct ptc* p){
 				PAINT_STACK_ADD(x2 + 1, x1 - 1, y - dy, -dy);
 			}
 			++x1;
-			while (x1 < x2 && !inside(data, x1, y, match)){
+			while (x1 < x2 && !inside(data, done, x1, y, match)){
 				++x1;
 			}
 			x = x1;
-- 
2.43.0


From 6ec0e28dbfa98d27082e477d483980970bff22b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:26 +0000
Subject: [PATCH 076/127] fix: GPAINT started on the border painted above it

---
 source/subsystem/graphics.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/subsystem/graphics.c b/source/subsystem/graphics.c
index 829bf19..f8b0b82 100644
--- a/source/subsystem/graphics.c
+++ b/source/subsystem/graphics.c
@@ -545,7 +545,7 @@ void cmd_gpaint(struct ptc* p){
 	} else {
 		match = inside_page(x, y) ? data[grp_index(x,y)] : 0;
 	}
-	if (!inside_page(x, y)) return; // nothing to paint
+	if (!inside(data, done, x, y, match)) return; // nothing to paint
 	int stack_i = 0;
 	u32 stack[PAINT_STACK_MAX];
 	
-- 
2.43.0


From 9ddb0eb2a0438613be9eb6b5bb42d793bb95c7ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:28 +0000
Subject: [PATCH 077/127] fix: GCIRCLE drew points off the left and top twice
 on the page edge

---
 source/subsystem/graphics.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/subsystem/graphics.c b/source/subsystem/graphics.c
index f8b0b82..810a9a8 100644
--- a/source/subsystem/graphics.c
+++ b/source/subsystem/graphics.c
@@ -468,10 +468,10 @@ void cmd_gcircle(struct ptc* p){
 	for (int i = 0; i < angle_units; ++i){
 		double angle = 2.0 * PI * i / angle_units;
 		double angle2 = 2.0 * PI * ((i + 1) % angle_units) / angle_units;
-		int x1 = x + r * cos(angle);
-		int y1 = y + r * sin(angle);
-		int x2 = x + r * cos(angle2);
-		int y2 = y + r * sin(angle2);
+		int x1 = floor(x + r * cos(angle));
+		int y1 = floor(y + r * sin(angle));
+		int x2 = floor(x + r * cos(angle2));
+		int y2 = floor(y + r * sin(angle2));
 		
 		draw_line(x1,y1,x2,y2,page,color,drawmode);
 		// the end point is drawn again as start of the next segment
-- 
2.43.0


From 100902f8c552908a0f632e626e0f172eefd93fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:16 +0000
Subject: [PATCH 078/127] fix: SPPAGE and SPCLR accepted pages and sprites that
 do not exist

---
 source/subsystem/sprites.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/subsystem/sprites.c b/source/subsystem/sprites.c
index 931b0e3..5e53743 100644
--- a/source/subsystem/sprites.c
+++ b/source/subsystem/sprites.c
@@ -197,7 +197,8 @@ int get_sprite_chr(struct sprite_info* s){
 }
 
 void cmd_sppage(struct ptc* p){
-	int page = STACK_INT(0);
+	int page;
+	STACK_INT_RANGE(0, 0, SCREEN_COUNT-1, page);
 	
 	p->sprites.page = page;
 }
@@ -205,7 +206,8 @@ void cmd_sppage(struct ptc* p){
 void cmd_spclr(struct ptc* p){
 	if (p->stack.stack_i == 1){
 		// SPCLR id
-		int index = STACK_INT(0);
+		int index;
+		STACK_INT_RANGE(0, 0, MAX_SPRITES-1, index);
 		// disable sprite: no values matter if inactive
 		p->sprites.info[p->sprites.page][index].active = false;
 	} else {
-- 
2.43.0


From efcf8cfd15ba74e440376da4e1786539f4e279de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:18 +0000
Subject: [PATCH 079/127] fix: SPSET accepted character 512 and sizes no sprite
 has

---
 source/subsystem/sprites.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/source/subsystem/sprites.c b/source/subsystem/sprites.c
index 5e53743..704e53c 100644
--- a/source/subsystem/sprites.c
+++ b/source/subsystem/sprites.c
@@ -218,12 +218,24 @@ void cmd_spclr(struct ptc* p){
 	}
 }
 
+// Sides are 8, 16, 32 or 64 pixels; 8x64 and 16x64 do not exist
+static bool is_sprite_size(int w, int h){
+	if (w > h){
+		int tmp = w;
+		w = h;
+		h = tmp;
+	}
+	if (w != 8 && w != 16 && w != 32 && w != 64) return false;
+	if (h != 8 && h != 16 && h != 32 && h != 64) return false;
+	return h < 64 || w >= 32;
+}
+
 void cmd_spset(struct ptc* p){
 	int id;
 	int chr;
 	int pal;
 	STACK_INT_RANGE(0, 0, 99, id);
-	STACK_INT_RANGE(1, 0, (p->sprites.page ? 117 : 512), chr);
+	STACK_INT_RANGE(1, 0, (p->sprites.page ? 117 : 511), chr);
 	STACK_INT_RANGE(2, 0, 15, pal);
 	bool horiz_flip = STACK_INT(3) != 0;
 	bool vert_flip = STACK_INT(4) != 0;
@@ -233,9 +245,9 @@ void cmd_spset(struct ptc* p){
 	int height = 16;
 	if (p->stack.stack_i == 8){
 		// spset id,chr,pal,h,v,prio,w,h
-		// TODO:ERR:MED bounds checking
 		width = STACK_INT(6);
 		height = STACK_INT(7);
+		if (!is_sprite_size(width, height)) ERROR(ERR_OUT_OF_RANGE);
 	}
 	// TODO:TEST:MED Validate that this initialization is correct
 	p->sprites.info[p->sprites.page][id] = init_sprite_info(id,chr,pal,horiz_flip,vert_flip,prio,width,height);
-- 
2.43.0


From 362452ead14feeaccef35e732634cbcd0de8f60b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:42 +0000
Subject: [PATCH 080/127] fix: a sprite moved by SPOFS over time stopped short
 of its target and kept its speed for collisions afterwards

---
 source/subsystem/sprites.c | 35 +++++++++++++++++++++++------------
 source/subsystem/sprites.h |  4 ++++
 2 files changed, 27 insertions(+), 12 deletions(-)

diff --git a/source/subsystem/sprites.c b/source/subsystem/sprites.c
index 704e53c..5bf56ee 100644
--- a/source/subsystem/sprites.c
+++ b/source/subsystem/sprites.c
@@ -17,7 +17,7 @@ struct sprite_info init_sprite_info(int id,int chr,int pal,bool horiz,bool vert,
 		id,chr,pal,w,h,prio,horiz,vert,
 		0,0,
 		{ // position
-			0,0,0,0,-1
+			0,0,0,0,0,0,-1
 		},{ // scale
 			INT_TO_FP(1),0,0
 		},{ // angle
@@ -32,6 +32,15 @@ struct sprite_info init_sprite_info(int id,int chr,int pal,bool horiz,bool vert,
 	};
 }
 
+// Place a sprite, ending any movement
+static void set_position(struct sprite_info* s, fixp x, fixp y){
+	s->pos.x = x;
+	s->pos.y = y;
+	s->pos.dx = 0;
+	s->pos.dy = 0;
+	s->pos.time = -1;
+}
+
 void step_sprites(struct sprites* s){
 	// Note: Code adapted from PTC-EmkII Sprites.cpp (Sprites::update())
 	for (int p = 0; p < SCREEN_COUNT; ++p){
@@ -49,9 +58,13 @@ void step_sprites(struct sprites* s){
 				spr->angle.time--;
 			}
 			if (spr->pos.time >= 0){
-				spr->pos.x += spr->pos.dx;
-				spr->pos.y += spr->pos.dy;
-				spr->pos.time--;
+				if (spr->pos.time == 0){ // last frame: arrive exactly
+					set_position(spr, spr->pos.end_x, spr->pos.end_y);
+				} else {
+					spr->pos.x += spr->pos.dx;
+					spr->pos.y += spr->pos.dy;
+					spr->pos.time--;
+				}
 			}
 			// TODO:PERF:NONE Check if this is slow.
 			if (spr->anim.loop_forever || spr->anim.loop > 0){
@@ -266,21 +279,19 @@ void cmd_spofs(struct ptc* p){
 
 	if (p->stack.stack_i == 3){
 		// spofs id,x,y
-		s->pos.x = x;
-		s->pos.y = y;
-		s->pos.time = -1;
+		set_position(s, x, y);
 	} else {
 		STACK_INT_MIN(3,0,time);
 //		iprintf("x=%d y=%d t=%d\n", x, y, time);
 		if (time){
-			s->pos.dx = (x - s->pos.x) / time;
-			s->pos.dy = (y - s->pos.y) / time;
+			s->pos.dx = ((int64_t)x - s->pos.x) / time;
+			s->pos.dy = ((int64_t)y - s->pos.y) / time;
+			s->pos.end_x = x;
+			s->pos.end_y = y;
 //			iprintf("dx=%d dy=%d\n", s->pos.dx, s->pos.dy);
 			s->pos.time = time - 1;
 		} else {
-			s->pos.x = x;
-			s->pos.y = y;
-			s->pos.time = -1;
+			set_position(s, x, y);
 		}
 	}
 }
diff --git a/source/subsystem/sprites.h b/source/subsystem/sprites.h
index a0975ef..b94b9e0 100644
--- a/source/subsystem/sprites.h
+++ b/source/subsystem/sprites.h
@@ -51,6 +51,10 @@ struct sprites {
 			fixp dx;
 			/// Change in y position (pixels/frame)
 			fixp dy;
+			/// Target x position of the movement (pixels)
+			fixp end_x;
+			/// Target y position of the movement (pixels)
+			fixp end_y;
 			/// Remaining time to move sprite (frames)
 			/// If -1, sprite is done moving.
 			int time;
-- 
2.43.0


From e3f1e3ae8e75cd8e1426e85e7fd2b3c1863e159b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:44 +0000
Subject: [PATCH 081/127] fix: SPANGLE over time turned by the wrong amount,
 one frame too long

---
 source/subsystem/sprites.c | 26 +++++++++++++++-----------
 source/subsystem/sprites.h |  4 +++-
 2 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/source/subsystem/sprites.c b/source/subsystem/sprites.c
index 5bf56ee..fdeb728 100644
--- a/source/subsystem/sprites.c
+++ b/source/subsystem/sprites.c
@@ -21,7 +21,7 @@ struct sprite_info init_sprite_info(int id,int chr,int pal,bool horiz,bool vert,
 		},{ // scale
 			INT_TO_FP(1),0,0
 		},{ // angle
-			0,0,0
+			0,0,0,-1
 		},{ // collision
 			0,0,0,0,INT_TO_FP(w),INT_TO_FP(h),false,0xff
 		},{ // animation
@@ -53,8 +53,11 @@ void step_sprites(struct sprites* s){
 				spr->scale.time--;
 			}
 			if (spr->angle.time >= 0){
-				// TODO:IMPL:MED interpolation direction?
-				spr->angle.a += spr->angle.da % INT_TO_FP(360);
+				if (spr->angle.time == 0){ // last frame: arrive exactly
+					spr->angle.a = spr->angle.end;
+				} else {
+					spr->angle.a += spr->angle.da;
+				}
 				spr->angle.time--;
 			}
 			if (spr->pos.time >= 0){
@@ -507,17 +510,18 @@ void cmd_spangle(struct ptc* p){
 		struct sprite_info* s = &p->sprites.info[p->sprites.page][id];
 //		s->angle.a = ;
 		if (time){
-			if (dir < 0){
-				// 45 -> 90 step 45/time
-				s->angle.da = (INT_TO_FP(angle) - s->angle.a) / time;
-			} else {
-				// 45 -> 90 step 315/time
-				s->angle.da = (s->angle.a - INT_TO_FP(angle)) / time;
-			}
+			s->angle.a %= INT_TO_FP(360);
+			// way to go with increasing angles
+			fixp dist = (INT_TO_FP(angle) - s->angle.a) % INT_TO_FP(360);
+			if (dist < 0) dist += INT_TO_FP(360);
+			// 45 -> 90: dir < 0 goes up by 45, otherwise down by 315
+			if (dir > 0 && dist) dist -= INT_TO_FP(360);
+			s->angle.da = dist / time;
+			s->angle.end = INT_TO_FP(angle);
 		} else {
 			s->angle.a = INT_TO_FP(angle);
 		}
-		s->angle.time = time ? time : -1;
+		s->angle.time = time - 1;
 	}
 }
 
diff --git a/source/subsystem/sprites.h b/source/subsystem/sprites.h
index b94b9e0..09fabb0 100644
--- a/source/subsystem/sprites.h
+++ b/source/subsystem/sprites.h
@@ -77,8 +77,10 @@ struct sprites {
 			fixp a;
 			/// Change in angle (degrees/frame)
 			fixp da;
+			/// Target angle of the rotation (degrees)
+			fixp end;
 			/// Remaining time rotate sprite (frames)
-			/// If 0, sprite is done rotating.
+			/// If -1, sprite is done rotating.
 			int time;
 		} angle;
 		
-- 
2.43.0


From e37f63d08222451774dfc7e1d41c1cc3c54a37fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:46 +0000
Subject: [PATCH 082/127] fix: SPSCALE with time 0 divided by zero and with a
 time scaled one frame too long

---
 source/subsystem/sprites.c | 23 +++++++++++++----------
 source/subsystem/sprites.h |  4 +++-
 2 files changed, 16 insertions(+), 11 deletions(-)

diff --git a/source/subsystem/sprites.c b/source/subsystem/sprites.c
index fdeb728..0cf544e 100644
--- a/source/subsystem/sprites.c
+++ b/source/subsystem/sprites.c
@@ -19,7 +19,7 @@ struct sprite_info init_sprite_info(int id,int chr,int pal,bool horiz,bool vert,
 		{ // position
 			0,0,0,0,0,0,-1
 		},{ // scale
-			INT_TO_FP(1),0,0
+			INT_TO_FP(1),0,0,-1
 		},{ // angle
 			0,0,0,-1
 		},{ // collision
@@ -49,7 +49,11 @@ void step_sprites(struct sprites* s){
 			struct sprite_info* spr = &info[i];
 			if (!spr->active){ continue; } // only update live sprites
 			if (spr->scale.time >= 0){
-				spr->scale.s += spr->scale.ds;
+				if (spr->scale.time == 0){ // last frame: arrive exactly
+					spr->scale.s = spr->scale.end;
+				} else {
+					spr->scale.s += spr->scale.ds;
+				}
 				spr->scale.time--;
 			}
 			if (spr->angle.time >= 0){
@@ -408,22 +412,21 @@ void cmd_spscale(struct ptc* p){
 	int id, scale, time;
 	STACK_INT_RANGE(0,0,31,id);
 	STACK_INT_RANGE(1,0,200,scale);
-	time = p->stack.stack_i == 3 ? STACK_NUM(2) : 0;
-	if (time < 0){
-		ERROR(ERR_OUT_OF_RANGE);
+	time = 0;
+	if (p->stack.stack_i == 3){
+		STACK_INT_MIN(2,0,time);
 	}
 	struct sprite_info* s = &p->sprites.info[p->sprites.page][id];
 	if (!s->active){
 		ERROR(ERR_ILLEGAL_FUNCTION_CALL);
 	}
-	if (p->stack.stack_i == 2){
+	if (time == 0){
 		s->scale.s = INT_TO_FP(scale)/100;
-		s->scale.time = -1;
 	} else {
-		STACK_INT_MIN(2,0,time);
-		s->scale.ds = ((INT_TO_FP(scale)/100) - s->scale.s) / time;
-		s->scale.time = time ? time : -1;
+		s->scale.end = INT_TO_FP(scale)/100;
+		s->scale.ds = (s->scale.end - s->scale.s) / time;
 	}
+	s->scale.time = time - 1;
 }
 
 void func_sphit(struct ptc* p){
diff --git a/source/subsystem/sprites.h b/source/subsystem/sprites.h
index 09fabb0..07f63ec 100644
--- a/source/subsystem/sprites.h
+++ b/source/subsystem/sprites.h
@@ -66,8 +66,10 @@ struct sprites {
 			fixp s;
 			/// Change in scale over time (step/frame)
 			fixp ds;
+			/// Target scale multiplier
+			fixp end;
 			/// Remaining time to scale sprite (frames)
-			/// If 0, sprite is done resizing.
+			/// If -1, sprite is done resizing.
 			int time;
 		} scale;
 		
-- 
2.43.0


From 21c8c7f98d734b9de1cee2254fc918815b227c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:47 +0000
Subject: [PATCH 083/127] fix: the end of a sprite's animation held up every
 later sprite for a frame

---
 source/subsystem/sprites.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/subsystem/sprites.c b/source/subsystem/sprites.c
index 0cf544e..f2c73fa 100644
--- a/source/subsystem/sprites.c
+++ b/source/subsystem/sprites.c
@@ -90,7 +90,7 @@ void step_sprites(struct sprites* s){
 						if (!spr->anim.loop_forever && spr->anim.loop == 0){ //all loops complete
 							spr->anim.current_chr -= chr_step;
 							//no more animation; frame remains last frame
-							break;
+							continue;
 						}
 						spr->anim.current_chr = spr->chr;
 					}
-- 
2.43.0


From 231247968170b536c70903db180c3d39d6b8d151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:49 +0000
Subject: [PATCH 084/127] fix: SPANIM accepted undefined sprites and empty
 animations, and illegal loop counts changed the sprite

---
 source/subsystem/sprites.c | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/source/subsystem/sprites.c b/source/subsystem/sprites.c
index f2c73fa..335efbf 100644
--- a/source/subsystem/sprites.c
+++ b/source/subsystem/sprites.c
@@ -599,24 +599,24 @@ void cmd_spanim(struct ptc* p){
 	int id, chrs, time;
 	// TODO:ERR:LOW Determine errors
 	STACK_INT_RANGE(0,0,99,id);
-	STACK_INT_MIN(1,0,chrs);
-	STACK_INT_MIN(2,0,time);
+	STACK_INT_MIN(1,1,chrs);
+	STACK_INT_MIN(2,1,time);
+	int loop = 0; // forever
+	if (p->stack.stack_i == 4){
+		STACK_INT_MIN(3,0,loop);
+	}
 	
 	struct sprite_info* s = &p->sprites.info[p->sprites.page][id];
+	if (!s->active){
+		ERROR(ERR_ILLEGAL_FUNCTION_CALL);
+	}
 	s->anim.chrs = chrs;
 	s->anim.frames_per_chr = time;
 	s->anim.current_frame = 0;
 	s->anim.current_chr = s->chr;
 	
-	if (p->stack.stack_i == 3){
-		s->anim.loop = 0;
-		s->anim.loop_forever = true;
-	} else {
-		int loop;
-		STACK_INT_MIN(3,0,loop);
-		s->anim.loop = loop;
-		s->anim.loop_forever = loop == 0;
-	}
+	s->anim.loop = loop;
+	s->anim.loop_forever = loop == 0;
 }
 
 void sys_sphitno(struct ptc* p){
-- 
2.43.0


From ac6a561b0b6b92d395097bc53127d16483271b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:50 +0000
Subject: [PATCH 085/127] fix: SPCHR did not show the new image once a sprite
 had been animated, and accepted undefined sprites

---
 source/subsystem/sprites.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/source/subsystem/sprites.c b/source/subsystem/sprites.c
index 335efbf..7b73cda 100644
--- a/source/subsystem/sprites.c
+++ b/source/subsystem/sprites.c
@@ -533,9 +533,11 @@ void cmd_spchr(struct ptc* p){
 	STACK_INT_RANGE(0,0,99,id);
 	struct sprite_info* s = &p->sprites.info[p->sprites.page][id];
 	STACK_INT_RANGE(1,0,(p->sprites.page ? 117 : 511),chr);
+	if (!s->active){
+		ERROR(ERR_ILLEGAL_FUNCTION_CALL);
+	}
 	if (p->stack.stack_i == 2){
 		// SPCHR id, chr
-		s->chr = chr;
 	} else {
 		// SPCHR id, chr, pal, h, v, prio
 		int pal, prio;
@@ -545,12 +547,15 @@ void cmd_spchr(struct ptc* p){
 		STACK_INT_RANGE(4,0,1,v);
 		STACK_INT_RANGE(5,0,3,prio);
 		
-		s->chr = chr;
 		s->pal = pal;
 		s->flip_x = h;
 		s->flip_y = v;
 		s->prio = prio;
 	}
+	s->chr = chr;
+	if (s->anim.current_chr >= 0){ // show it; a running animation continues from here
+		s->anim.current_chr = chr;
+	}
 }
 
 void func_spchk(struct ptc* p){
-- 
2.43.0


From d9e69cbaf55f427fd4e89c4937c9891a670dc393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:52 +0000
Subject: [PATCH 086/127] fix: SPREAD gave the character number divided by 4096
 and accepted undefined sprites; SPCHK gave the state of undefined sprites

---
 source/subsystem/sprites.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/source/subsystem/sprites.c b/source/subsystem/sprites.c
index 7b73cda..b5bc05e 100644
--- a/source/subsystem/sprites.c
+++ b/source/subsystem/sprites.c
@@ -564,6 +564,10 @@ void func_spchk(struct ptc* p){
 	p->stack.stack_i -= 1;
 	struct sprite_info* s = &p->sprites.info[p->sprites.page][id];
 	
+	if (!s->active){
+		STACK_RETURN_INT(0); // nothing is in progress
+	}
+	
 	int result = s->pos.time >= 0;
 	result |= (s->angle.time >= 0) << 1;
 	result |= (s->scale.time >= 0) << 2;
@@ -575,6 +579,9 @@ void cmd_spread(struct ptc* p){
 	int id;
 	STACK_INT_RANGE(0,0,99,id);
 	struct sprite_info* s = &p->sprites.info[p->sprites.page][id];
+	if (!s->active){
+		ERROR(ERR_ILLEGAL_FUNCTION_CALL);
+	}
 	// TODO:TEST:LOW Test ranges of values for correctness
 	// TODO:TEST:LOW Test interpolation values
 	if (p->stack.stack_i >= 2){
@@ -595,7 +602,7 @@ void cmd_spread(struct ptc* p){
 	}
 	if (p->stack.stack_i == 6){
 		fixp* c = (fixp*)ARG(5)->value.ptr;
-		*c = s->chr;
+		*c = INT_TO_FP(s->chr);
 	}
 }
 
-- 
2.43.0


From 742bc1151cd558f281f53c6131375dade956e908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:18 +0000
Subject: [PATCH 087/127] fix: sprite collisions overflowed for far apart
 sprites

---
 source/subsystem/sprites.c | 33 +++++++++++++++++----------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/source/subsystem/sprites.c b/source/subsystem/sprites.c
index b5bc05e..0c24ae2 100644
--- a/source/subsystem/sprites.c
+++ b/source/subsystem/sprites.c
@@ -113,14 +113,15 @@ bool is_hit(struct sprite_info* a, struct sprite_info* b){
 		return false; //can't hit different groups
 	}
 	// Note: These are vectors, so the numeric values shouldn't matter too much
-	fixp normals[3][2] = {
+	// 64-bit: positions and movements are added and subtracted below
+	int64_t normals[3][2] = {
 		{INT_TO_FP(1), 0},
 		{0, INT_TO_FP(1)},
 		{0, 0}
 	};
 	
 	if (!a->hit.dx && !a->hit.dy){
-		normals[2][0] = -a->pos.dy;
+		normals[2][0] = -(int64_t)a->pos.dy;
 		normals[2][1] = a->pos.dx;
 	} else {
 		normals[2][0] = -a->hit.dy;
@@ -128,10 +129,10 @@ bool is_hit(struct sprite_info* a, struct sprite_info* b){
 	}
 	
 	if (!b->hit.dx && !b->hit.dy){
-		normals[2][0] -= -b->pos.dy;
+		normals[2][0] += b->pos.dy;
 		normals[2][1] -= b->pos.dx;
 	} else {
-		normals[2][0] -= -b->hit.dy;
+		normals[2][0] += b->hit.dy;
 		normals[2][1] -= b->hit.dx;
 	}
 	
@@ -139,12 +140,12 @@ bool is_hit(struct sprite_info* a, struct sprite_info* b){
 	// with only trivial vectors
 
 	// TODO:TEST:MED Verify adjustment for scale flag is correct
-	fixp ahx = ((dfixp)a->hit.x * a->scale.s) >> FIXPOINT;
-	fixp ahy = ((dfixp)a->hit.y * a->scale.s) >> FIXPOINT;
-	fixp ahxw = (((dfixp)a->hit.x + a->hit.w) * a->scale.s) >> FIXPOINT;
-	fixp ahyh = (((dfixp)a->hit.y + a->hit.h) * a->scale.s) >> FIXPOINT;
+	int64_t ahx = ((dfixp)a->hit.x * a->scale.s) >> FIXPOINT;
+	int64_t ahy = ((dfixp)a->hit.y * a->scale.s) >> FIXPOINT;
+	int64_t ahxw = (((dfixp)a->hit.x + a->hit.w) * a->scale.s) >> FIXPOINT;
+	int64_t ahyh = (((dfixp)a->hit.y + a->hit.h) * a->scale.s) >> FIXPOINT;
 
-	fixp a_verts[8][2] = {
+	int64_t a_verts[8][2] = {
 		// vertices of a
 		{a->pos.x + ahx,  a->pos.y + ahy},
 		{a->pos.x + ahxw, a->pos.y + ahy},
@@ -157,12 +158,12 @@ bool is_hit(struct sprite_info* a, struct sprite_info* b){
 		{a->pos.x + ahx + normals[2][1],  a->pos.y + ahyh - normals[2][0]},
 	};
 	
-	fixp bhx = ((dfixp)b->hit.x * b->scale.s) >> FIXPOINT;
-	fixp bhy = ((dfixp)b->hit.y * b->scale.s) >> FIXPOINT;
-	fixp bhxw = (((dfixp)b->hit.x + b->hit.w) * b->scale.s) >> FIXPOINT;
-	fixp bhyh = (((dfixp)b->hit.y + b->hit.h) * b->scale.s) >> FIXPOINT;
+	int64_t bhx = ((dfixp)b->hit.x * b->scale.s) >> FIXPOINT;
+	int64_t bhy = ((dfixp)b->hit.y * b->scale.s) >> FIXPOINT;
+	int64_t bhxw = (((dfixp)b->hit.x + b->hit.w) * b->scale.s) >> FIXPOINT;
+	int64_t bhyh = (((dfixp)b->hit.y + b->hit.h) * b->scale.s) >> FIXPOINT;
 
-	fixp b_verts[4][2] = {
+	int64_t b_verts[4][2] = {
 		{b->pos.x + bhx,  b->pos.y + bhy},
 		{b->pos.x + bhxw, b->pos.y + bhy},
 		{b->pos.x + bhxw, b->pos.y + bhyh},
@@ -180,7 +181,7 @@ bool is_hit(struct sprite_info* a, struct sprite_info* b){
 		int64_t max = 0x8000000000000000;
 		for (idx j = 0; j < sizeof(b_verts)/sizeof(b_verts[0]); ++j){
 			// Fixpoint becomes 40.24 here
-			int64_t d = (int64_t)normals[i][0] * (int64_t)b_verts[j][0] + (int64_t)normals[i][1] * (int64_t)b_verts[j][1];
+			int64_t d = normals[i][0] * b_verts[j][0] + normals[i][1] * b_verts[j][1];
 			
 			if (d < min) min = d;
 			if (d > max) max = d;
@@ -193,7 +194,7 @@ bool is_hit(struct sprite_info* a, struct sprite_info* b){
 		for (idx j = 0; j < sizeof(a_verts)/sizeof(a_verts[0]); ++j){
 			// Fixpoint becomes 40.24 here
 			// Same scale as min and max, so the math still works
-			int64_t d = (int64_t)normals[i][0] * (int64_t)a_verts[j][0] + (int64_t)normals[i][1] * (int64_t)a_verts[j][1];
+			int64_t d = normals[i][0] * a_verts[j][0] + normals[i][1] * a_verts[j][1];
 			
 			if (d < min) on_left = true;
 			if (d > max) on_right = true;
-- 
2.43.0


From a615ef6a6fe083a2238ecde637297e2d060efee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:19 +0000
Subject: [PATCH 088/127] fix: SPSCALE resized collision boxes although SPCOL's
 scale flag was off

---
 source/subsystem/sprites.c | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/source/subsystem/sprites.c b/source/subsystem/sprites.c
index 0c24ae2..5f3285e 100644
--- a/source/subsystem/sprites.c
+++ b/source/subsystem/sprites.c
@@ -23,7 +23,7 @@ struct sprite_info init_sprite_info(int id,int chr,int pal,bool horiz,bool vert,
 		},{ // angle
 			0,0,0,-1
 		},{ // collision
-			0,0,0,0,INT_TO_FP(w),INT_TO_FP(h),false,0xff
+			0,0,0,0,INT_TO_FP(w),INT_TO_FP(h),true,0xff
 		},{ // animation
 			1,0,0,false,0,-1
 		},{ // sprite vars
@@ -139,11 +139,12 @@ bool is_hit(struct sprite_info* a, struct sprite_info* b){
 	// TODO:PERF:LOW Check if reducing to regular AABB case is faster for sprites
 	// with only trivial vectors
 
-	// TODO:TEST:MED Verify adjustment for scale flag is correct
-	int64_t ahx = ((dfixp)a->hit.x * a->scale.s) >> FIXPOINT;
-	int64_t ahy = ((dfixp)a->hit.y * a->scale.s) >> FIXPOINT;
-	int64_t ahxw = (((dfixp)a->hit.x + a->hit.w) * a->scale.s) >> FIXPOINT;
-	int64_t ahyh = (((dfixp)a->hit.y + a->hit.h) * a->scale.s) >> FIXPOINT;
+	fixp a_scale = a->hit.scale_adjust ? a->scale.s : INT_TO_FP(1);
+	fixp b_scale = b->hit.scale_adjust ? b->scale.s : INT_TO_FP(1);
+	int64_t ahx = ((dfixp)a->hit.x * a_scale) >> FIXPOINT;
+	int64_t ahy = ((dfixp)a->hit.y * a_scale) >> FIXPOINT;
+	int64_t ahxw = (((dfixp)a->hit.x + a->hit.w) * a_scale) >> FIXPOINT;
+	int64_t ahyh = (((dfixp)a->hit.y + a->hit.h) * a_scale) >> FIXPOINT;
 
 	int64_t a_verts[8][2] = {
 		// vertices of a
@@ -158,10 +159,10 @@ bool is_hit(struct sprite_info* a, struct sprite_info* b){
 		{a->pos.x + ahx + normals[2][1],  a->pos.y + ahyh - normals[2][0]},
 	};
 	
-	int64_t bhx = ((dfixp)b->hit.x * b->scale.s) >> FIXPOINT;
-	int64_t bhy = ((dfixp)b->hit.y * b->scale.s) >> FIXPOINT;
-	int64_t bhxw = (((dfixp)b->hit.x + b->hit.w) * b->scale.s) >> FIXPOINT;
-	int64_t bhyh = (((dfixp)b->hit.y + b->hit.h) * b->scale.s) >> FIXPOINT;
+	int64_t bhx = ((dfixp)b->hit.x * b_scale) >> FIXPOINT;
+	int64_t bhy = ((dfixp)b->hit.y * b_scale) >> FIXPOINT;
+	int64_t bhxw = (((dfixp)b->hit.x + b->hit.w) * b_scale) >> FIXPOINT;
+	int64_t bhyh = (((dfixp)b->hit.y + b->hit.h) * b_scale) >> FIXPOINT;
 
 	int64_t b_verts[4][2] = {
 		{b->pos.x + bhx,  b->pos.y + bhy},
-- 
2.43.0


From bb2c130c3157e9ebafa980b14b921136039d2860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:33 +0000
Subject: [PATCH 089/127] fix: a touch leaving the held key for a place without
 a key read outside the key table, the hidden icon page buttons worked, and
 the lower one was left at once

---
 source/subsystem/panel.c | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/source/subsystem/panel.c b/source/subsystem/panel.c
index 9f125c9..1823305 100644
--- a/source/subsystem/panel.c
+++ b/source/subsystem/panel.c
@@ -325,6 +325,18 @@ const char* key_map =
 "\124\124\124\124\xff\125\125\125\125\126\126\127\127\130\130\130\130\xff\131\131\133\133\133\134\134\134\135\135\135\136\136\136"
 ;
 
+// Sprite ID of the displayed key at a location, or -1 if there is none
+static int key_at(struct panel* p, int x, int y){
+	u8 c = key_map[x/8 + 32*(y/8)];
+	if (c == 0xff) return -1;
+	if (c == ICON_PAGE_START){
+		if (!p->iconpuse) return -1;
+		// icon page down button (the weird height means this had to be a special case)
+		if (y >= SCREEN_HEIGHT - 12) return c + 1;
+	}
+	return c;
+}
+
 void press_key(struct ptc* ptc, bool t, int x, int y){
 	struct panel* p = &ptc->panel;
 	if (!t){
@@ -333,8 +345,8 @@ void press_key(struct ptc* ptc, bool t, int x, int y){
 		p->pressed_time = 0;
 		return; // no touch = no press
 	} else if (t && p->key_pressed){ // touch and hold
-		char c = key_map[x/8 + 32*(y/8)];
-		if (p->keys[(int)c].vars[0] != p->key_pressed){
+		int c = key_at(p, x, y);
+		if (c < 0 || p->keys[c].vars[0] != p->key_pressed){
 			p->key_pressed = 0;
 			p->id_pressed = -1;
 		} else {
@@ -344,13 +356,10 @@ void press_key(struct ptc* ptc, bool t, int x, int y){
 //		return;
 	} else {
 		//press keyboard keys (touching, no previous hold, no previous timer)
-		char c = key_map[x/8 + 32*(y/8)];
-		if (c == '\131' && p->iconpuse && y >= (SCREEN_HEIGHT - 12)){
-			c = '\132'; // icon page down button (the weird height means this had to be a special case)
-		}
-		if (c != '\xff'){
+		int c = key_at(p, x, y);
+		if (c >= 0){
 			p->id_pressed = c;
-			p->key_pressed = p->keys[(int)c].vars[0];
+			p->key_pressed = p->keys[c].vars[0];
 			p->pressed_time = 1;
 		} else {
 			// no key pressed
-- 
2.43.0


From 6c4d4e2f55d9a99466387551c1d49653a8fe470e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:36 +0000
Subject: [PATCH 090/127] fix: the keys and the panel shown did not change with
 PNLTYPE and INPUT

---
 source/subsystem/console.c |  5 ++---
 source/subsystem/panel.c   | 28 ++++++++++++++++++----------
 source/subsystem/panel.h   |  1 +
 3 files changed, 21 insertions(+), 13 deletions(-)

diff --git a/source/subsystem/console.c b/source/subsystem/console.c
index ff5f5c3..58c1517 100644
--- a/source/subsystem/console.c
+++ b/source/subsystem/console.c
@@ -217,8 +217,7 @@ u16* shared_input(struct ptc* p, int* len){
 	int old_panel = p->panel.type;
 	p->console.cursor_visible = true;
 	// enable typing during INPUT/LINPUT if not already active
-	p->panel.type = PNL_KYA; // TODO:IMPL:MED Update panel fully on load
-	set_panel_bg(p, PNL_KYA);
+	set_panel_type(p, PNL_KYA);
 	do {
 		// wait for a frame to pass
 		int t = get_time(&p->time);
@@ -287,7 +286,7 @@ u16* shared_input(struct ptc* p, int* len){
 		p->console.x = out_index;
 	} while (!p->exec.error && inkey != '\r'
 			&& (inkey || !check_pressed_manual(&p->input, BUTTON_ID_A, 15, 4)));
-	p->panel.type = old_panel;
+	set_panel_type(p, old_panel);
 	p->console.cursor_visible = false;
 	*len = out_index_max;
 	return output;
diff --git a/source/subsystem/panel.c b/source/subsystem/panel.c
index 1823305..cd829fb 100644
--- a/source/subsystem/panel.c
+++ b/source/subsystem/panel.c
@@ -162,27 +162,35 @@ void free_panel(struct ptc* p){
 	free_console(p->panel.keys_text);
 }
 
+// Switches the panel and updates everything displayed on it
+void set_panel_type(struct ptc* p, enum pnltype type){
+	enum pnltype old_type = p->panel.type;
+	if (old_type == type) return;
+	
+	p->panel.type = type;
+	// all keyboards share one layout
+	if (old_type < PNL_KYA || type < PNL_KYA) set_panel_bg(p, type);
+	if (type >= PNL_KYA) refresh_panel(p);
+}
+
 void cmd_pnltype(struct ptc* p){
 	void* type = value_str(ARG(0));
 	
-	enum pnltype old_type = p->panel.type;
+	enum pnltype new_type;
 	if (str_comp(type, "S\3OFF")){
-		p->panel.type = PNL_OFF;
+		new_type = PNL_OFF;
 	} else if (str_comp(type, "S\3PNL")){
-		p->panel.type = PNL_PNL;
+		new_type = PNL_PNL;
 	} else if (str_comp(type, "S\3KYA")){
-		p->panel.type = PNL_KYA;
+		new_type = PNL_KYA;
 	} else if (str_comp(type, "S\3KYM")){
-		p->panel.type = PNL_KYM;
+		new_type = PNL_KYM;
 	} else if (str_comp(type, "S\3KYK")){
-		p->panel.type = PNL_KYK;
+		new_type = PNL_KYK;
 	} else {
 		ERROR(ERR_INVALID_ARGUMENT_VALUE);
 	}
-	if (old_type != p->panel.type){
-		if ((old_type >= PNL_KYA) != (p->panel.type >= PNL_KYA))
-			set_panel_bg(p, p->panel.type);
-	}
+	set_panel_type(p, new_type);
 }
 
 // TODO:TEST:MED Test this function, specifically edge behavior
diff --git a/source/subsystem/panel.h b/source/subsystem/panel.h
index 505c067..0d733f0 100644
--- a/source/subsystem/panel.h
+++ b/source/subsystem/panel.h
@@ -92,6 +92,7 @@ void syschk_iconpage(struct ptc* p);
 
 void refresh_panel(struct ptc*);
 void set_panel_bg(struct ptc* p, enum pnltype type);
+void set_panel_type(struct ptc* p, enum pnltype type);
 void set_function_key(struct ptc* p, int key, const void* string);
 void press_key(struct ptc* p, bool t, int x, int y);
 void offset_key(struct ptc* p, int id, int d);
-- 
2.43.0


From 0a6616eb9053f4b7138fc53f655df5a35e56dad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:38 +0000
Subject: [PATCH 091/127] fix: INKEY$ read outside its table for characters
 that have no character code

---
 source/subsystem/input.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/source/subsystem/input.c b/source/subsystem/input.c
index 7c81e80..2c1f25b 100644
--- a/source/subsystem/input.c
+++ b/source/subsystem/input.c
@@ -202,8 +202,18 @@ void func_inkey(struct ptc* p){
 	}
 	u16 inkey = get_inkey(i);
 	if (inkey){
-		//TODO:CODE:LOW Doesn't handle wide characters
-		stack_push(&p->stack, (struct stack_entry){VAR_STRING, {.ptr = &single_char_strs[3 * to_char(inkey)]}});
+		int c = to_char(inkey);
+		if (c >= 0 && c <= 0xff){
+			stack_push(&p->stack, (struct stack_entry){VAR_STRING, {.ptr = &single_char_strs[3 * c]}});
+		} else {
+			// no character code (from KEY with a string loaded from a file)
+			struct string* dest = get_new_str(&p->strs);
+			if (!dest) ERROR(ERR_OUT_OF_MEMORY);
+			dest->uses = 1;
+			dest->len = 1;
+			str_copy_buf(&inkey, str_at(dest, 0), STR_COPY_SRC_16 | (str_type(dest) << 1), 1);
+			stack_push(&p->stack, (struct stack_entry){VAR_STRING, {.ptr = dest}});
+		}
 	} else {
 		stack_push(&p->stack, (struct stack_entry){VAR_STRING, {.ptr = empty_str}});
 	}
-- 
2.43.0


From 05d85e24f0f9904f5d8b1d675081a180f0e95a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:09 +0000
Subject: [PATCH 092/127] fix: SPREAD wrote through numbers given where it
 needs variables

---
 source/interpreter/tokens.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/interpreter/tokens.c b/source/interpreter/tokens.c
index d808593..c24e84d 100644
--- a/source/interpreter/tokens.c
+++ b/source/interpreter/tokens.c
@@ -115,7 +115,7 @@ const char* cmd_format[] = {
 	"NNS,NNSN","S","v","","","SS",//RENAME
 	"L","NNAa","0","S","","NNAa","NN,NNN,NNNN",//SPANGLE
 	"NNN,NNNN","NN,NNNNNN","0,N","NNNNNN,NNNNNNN","NNN","NNN","NNN,NNNN","N",//SPPAGE
-	"NN,NNN,NNNN,NNNNN,NNNNNN","NN,NNN","NNNNNN,NNNNNNNN","NNN","nn,ss",//SWAP
+	"Nn,Nnn,Nnnn,Nnnnn,Nnnnnn","NN,NNN","NNNNNN,NNNNNNNN","NNN","nn,ss",//SWAP
 	"Snnn",//TMREAD
 	"S", "0", // TALK, TALKSTOP
 	"NN","NN","NN","NNN","NNN", //MEMFILL
-- 
2.43.0


From 4f18134bd38162d97e19609fca17dae2975b1b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:55 +0000
Subject: [PATCH 093/127] fix: TABSTEP read back a value other than the one in
 effect

---
 source/subsystem/console.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/subsystem/console.c b/source/subsystem/console.c
index 58c1517..bd669db 100644
--- a/source/subsystem/console.c
+++ b/source/subsystem/console.c
@@ -488,4 +488,5 @@ void syschk_tabstep(struct ptc* p){
 	if (cur_tabstep < 1) cur_tabstep = 1;
 	if (cur_tabstep > 16) cur_tabstep = 16;
 	p->console.tabstep = cur_tabstep;
+	p->console.sys_tabstep = INT_TO_FP(cur_tabstep);
 }
-- 
2.43.0


From d5dfa4fe834b5eb89395895d3772cc02668b4dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:21 +0000
Subject: [PATCH 094/127] fix: A failed or stopped prompt ran the previous line
 again

---
 source/system.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/source/system.c b/source/system.c
index 059c18e..c5f5efd 100644
--- a/source/system.c
+++ b/source/system.c
@@ -21,6 +21,7 @@
 #include "interpreter.h"
 #include "program.h"
 #include "tokens.h"
+#include "variables.h"
 
 struct ptc* init_system(int var, int str, int arr, bool headless){
 	srand(time(NULL));
@@ -384,6 +385,13 @@ int launch_system(void* launch_info){
 				{
 				run(prompt_bc, p); // get prompt
 				
+				if (p->exec.error && p->exec.error != ERR_BUTTON_SIGNAL){
+					// No line was entered. If there is no memory left for it,
+					// the variables have to go, since no command could free them.
+					if (p->exec.error != ERR_BREAK && p->exec.error != ERR_SHUTDOWN) cmd_clear(p);
+					break;
+				}
+				
 				void* cmd = get_var(&p->vars, "CODE", 4, VAR_STRING)->value.ptr;
 				if (str_comp(cmd, "S\011REM BENCH")){
 					state = LAUNCH_DEBUG;
@@ -404,9 +412,6 @@ int launch_system(void* launch_info){
 					p->exec.error_info[0] = 0; // clear signal info
 					break;
 				}
-				if (p->exec.error == ERR_SHUTDOWN){
-					break;
-				}
 				
 				// execute single line
 				// create small program
-- 
2.43.0


From df5dd5e7045f130519334b8280184cd1ea1296c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:31 +0000
Subject: [PATCH 095/127] fix: CLEAR never gave back variable names once any
 code used variable IDs

---
 source/interpreter/tokens.c |  1 +
 source/interpreter/vars.c   | 25 ++++++++++++++++++++++++-
 source/interpreter/vars.h   |  2 ++
 3 files changed, 27 insertions(+), 1 deletion(-)

diff --git a/source/interpreter/tokens.c b/source/interpreter/tokens.c
index c24e84d..aca7b9f 100644
--- a/source/interpreter/tokens.c
+++ b/source/interpreter/tokens.c
@@ -975,6 +975,7 @@ int tok_code(struct tokenizer* state){
 					}
 				}
 				if (use_id){
+					state->system->vars.vars[var_id].fixed = true;
 					if (var_id < 256){
 						data[(*size)++] = BC_VARIABLE_ID_SMALL;
 						data[(*size)++] = (var_id & 0xff);
diff --git a/source/interpreter/vars.c b/source/interpreter/vars.c
index 881b51f..eb2801b 100644
--- a/source/interpreter/vars.c
+++ b/source/interpreter/vars.c
@@ -26,9 +26,30 @@ void init_mem_var(struct variables* v, uint_fast16_t var_count){
 
 void reset_var(struct variables* v){
 	if (v->clear_values){
+		// Compiled code keeps its variables. To find these by name as well, the
+		// entries passed on the way to them have to stay in use too.
+		bool keep[v->vars_max];
+		memset(keep, 0, sizeof(keep));
+		for (uint_fast16_t i = 0; i < v->vars_max; ++i){
+			struct named_var* var = &v->vars[i];
+			if (var->type == VAR_EMPTY || !var->fixed) continue;
+			
+			u32 len = 0;
+			while (len < VAR_NAME_MAX_LENGTH && var->name[len]) ++len;
+			u32 hash = name_hash(var->name, len, v->vars_max);
+			keep[hash] = true;
+			for (u32 step = 1; hash != i && step <= v->vars_max; ++step){
+				hash = (hash + step) % v->vars_max;
+				keep[hash] = true;
+			}
+		}
 		// Clear variables by resetting values to default for next read
 		for (uint_fast16_t i = 0; i < v->vars_max; ++i){
-			if (v->vars[i].type == VAR_NUMBER){
+			if (v->vars[i].type == VAR_EMPTY) continue;
+			if (!keep[i]){
+				v->vars[i].type = VAR_EMPTY; // slot is open
+				--v->var_count;
+			} else if (v->vars[i].type == VAR_NUMBER){
 				v->vars[i].value.number = 0;
 			} else if (v->vars[i].type == VAR_STRING){
 				v->vars[i].value.ptr = empty_str;
@@ -40,6 +61,7 @@ void reset_var(struct variables* v){
 		// Clear variables by indicating slot is open
 		for (uint_fast16_t i = 0; i < v->vars_max; ++i){
 			v->vars[i].type = VAR_EMPTY;
+			v->vars[i].fixed = false;
 		}
 		v->var_count = 0; // all variables marked as unused
 	}
@@ -154,6 +176,7 @@ struct named_var* get_var(struct variables* v, char* name, u32 len, enum types t
 	//if VAR_EMPTY then create it
 	if (var->type == VAR_EMPTY){
 		++v->var_count;
+		var->fixed = false;
 		// set var type
 		var->type = type;
 		// set var name
diff --git a/source/interpreter/vars.h b/source/interpreter/vars.h
index e7fee54..6aed321 100644
--- a/source/interpreter/vars.h
+++ b/source/interpreter/vars.h
@@ -57,6 +57,8 @@ struct named_var {
 	char name[VAR_NAME_MAX_LENGTH];
 	/// The value stored in this variable.
 	union value value;
+	/// Compiled code refers to this variable by its position (TOKOPT_VARIABLE_IDS)
+	bool fixed;
 };
 
 struct strings;
-- 
2.43.0


From 4d8e10b8be7df98a92b02358438d638e1c069581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:17 +0000
Subject: [PATCH 096/127] fix: arguments of a bracket at the line start were
 used by a later variable

---
 source/interpreter/tokens.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/source/interpreter/tokens.c b/source/interpreter/tokens.c
index aca7b9f..ebaf8ee 100644
--- a/source/interpreter/tokens.c
+++ b/source/interpreter/tokens.c
@@ -670,6 +670,9 @@ int tok_test(struct tokenizer* state){
 				
 			case array_name:
 			case name:
+				if (argc && state->tokens[i].type == name){
+					return ERR_TEST_ARRAY; // arguments belong to no array
+				}
 				if (argc > stack_i || (!argc && state->tokens[i].type == array_name)){
 					return ERR_TEST_ARRAY; // some arguments are missing
 				}
@@ -1135,6 +1138,8 @@ int tok_eval(struct tokenizer* state){
 					} else if (prev_type != function && prev_type != dim_arr){
 						e.argc_stack[e.argc_i] |= 0x80; // special indicator for "doesn't NEED argcount"
 					}
+				} else {
+					e.argc_stack[e.argc_i] |= 0x80;
 				}
 			} else { // assumed ) or ]
 				// handle 0-args PI(), BUTTON() case
-- 
2.43.0


From 1f13be667a69eca5b7433c37c8d86d29cb0f7dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:19 +0000
Subject: [PATCH 097/127] fix: GOTO with a comma in place of the first label
 crashed

---
 source/interpreter/flow.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/interpreter/flow.c b/source/interpreter/flow.c
index c471e20..77a21db 100644
--- a/source/interpreter/flow.c
+++ b/source/interpreter/flow.c
@@ -223,7 +223,9 @@ void cmd_goto_gosub(struct ptc* p, bool push_return){
 	assert(p->stack.stack_i);
 	struct stack_entry* e = ARG(0);
 	void* label = NULL;
-	assert(e->type & (VAR_NUMBER | VAR_STRING));
+	if (!(e->type & (VAR_NUMBER | VAR_STRING))){
+		ERROR(ERR_SYNTAX); // label is missing
+	}
 	if (e->type & VAR_NUMBER){
 		// Rest of stack contains labels in order
 		int label_i = VALUE_INT(e);
-- 
2.43.0


From 8f54a1de3274a6ff81901fb357a2ccc4ff3c2838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:21 +0000
Subject: [PATCH 098/127] fix: FOR without TO, ON without GOTO and STEP passed
 wrong arguments on

---
 source/interpreter/tokens.c | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/source/interpreter/tokens.c b/source/interpreter/tokens.c
index ebaf8ee..991dd54 100644
--- a/source/interpreter/tokens.c
+++ b/source/interpreter/tokens.c
@@ -559,6 +559,8 @@ int tok_test(struct tokenizer* state){
 	
 	const char* valid; // Local used for some cases
 	bool is_valid; // Used by some cases
+	bool has_to = false; // TO was found for the current FOR
+	bool is_on = false; // ON was the last command
 	
 	iprintf("Validation:\n");
 	for (u8 i = 0; i < state->token_i; ++i){
@@ -595,9 +597,16 @@ int tok_test(struct tokenizer* state){
 				// relies on variable carrying through...
 				// FOR: for assignment
 				// TO: for BC_BEGIN_LOOP
-				if (cmd != CMD_FOR && cmd != CMD_TO){
+				if (is_on && cmd != CMD_GOTO && cmd != CMD_GOSUB){
+					return ERR_TEST_COMMAND; // ON leaves its value to one of these
+				}
+				is_on = cmd == CMD_ON;
+				if (cmd != CMD_FOR && cmd != CMD_TO && cmd != CMD_STEP){
 					stack_i = 0;
 				}
+				if (cmd == CMD_TO){
+					has_to = true;
+				}
 				}
 				break;
 				
@@ -743,6 +752,10 @@ int tok_test(struct tokenizer* state){
 				break;
 				
 			case loop_begin:
+				if (!has_to){
+					return ERR_TEST_COMMAND; // FOR has no end value
+				}
+				has_to = false;
 				stack_i = 0; // consumes stack elements
 				break;
 				
@@ -754,6 +767,8 @@ int tok_test(struct tokenizer* state){
 	
 	if (stack_i)
 		return ERR_TEST_STACK;
+	if (is_on)
+		return ERR_TEST_COMMAND;
 	return ERR_NONE;
 }
 
-- 
2.43.0


From 8958f511b542e4606ec1644979b5238335e83cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:23 +0000
Subject: [PATCH 099/127] fix: COLINIT read past an empty name

---
 source/subsystem/resources.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/subsystem/resources.c b/source/subsystem/resources.c
index 1fd9e4b..19dcc32 100644
--- a/source/subsystem/resources.c
+++ b/source/subsystem/resources.c
@@ -989,6 +989,9 @@ void cmd_colinit(struct ptc* p){
 	} else {
 		// COLINIT resource
 		void* res_str = value_str(ARG(0));
+		u8* col_data = get_col_resource(p, res_str);
+		if (!col_data) return; // the name is not valid, and may be empty
+
 		char id = str_at_char(res_str, 0);
 		if (id == 'B') id = '0';
 		if (id == 'S') id = '1';
@@ -997,9 +1000,6 @@ void cmd_colinit(struct ptc* p){
 		char name[] = "COLX";
 		name[3] = id;
 
-		u8* col_data = get_col_resource(p, res_str);
-		if (!col_data) return; // TODO:ERR:LOW can this happen?
-
 		if (p->stack.stack_i == 1){
 			load_col(col_data, resource_path, name);
 		} else {
-- 
2.43.0


From 03f9f475085eec751c7a249b9619d6bdbb22687a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:25 +0000
Subject: [PATCH 100/127] fix: defining a label crashed if there is no space
 for any label

---
 source/interpreter/label.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/interpreter/label.c b/source/interpreter/label.c
index 5045c2b..2b4ce19 100644
--- a/source/interpreter/label.c
+++ b/source/interpreter/label.c
@@ -53,6 +53,7 @@ void reset_label(struct labels* l){
 
 // Finds the location of a previously defined label
 int find_label(struct labels* l, char* name, uint_fast8_t len){
+	if (!l->label_count) return -1; // no labels can be stored
 	struct label_line* label;
 	u32 hash = name_hash(name, len, l->label_count);
 	u32 step = 0;
@@ -75,6 +76,7 @@ int find_label(struct labels* l, char* name, uint_fast8_t len){
 
 // Finds a location for a *new* label
 int find_label_slot(struct labels* l, char* name, uint_fast8_t len){
+	if (!l->label_count) return -1; // no labels can be stored
 	struct label_line* label;
 	u32 hash = name_hash(name, len, l->label_count);
 	u32 step = 0;
-- 
2.43.0


From 380ae2fef4e957391c7da29fbd65de2deb37b812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:27 +0000
Subject: [PATCH 101/127] fix: lines that fit into the code memory were refused

---
 source/interpreter/tokens.c | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/source/interpreter/tokens.c b/source/interpreter/tokens.c
index 991dd54..d3ff72f 100644
--- a/source/interpreter/tokens.c
+++ b/source/interpreter/tokens.c
@@ -331,6 +331,15 @@ int tokenize_full(struct program* src, struct bytecode* out, void* system, int o
 /// Size of an error in the code
 #define TOK_CODE_ERROR_SIZE 2
 
+/// Checks for numbers of one or two digits, which need less space
+static bool is_short_number(struct tokenizer* state, struct token* t){
+	if (t->type != number || t->len > 2) return false;
+	for (size_t i = 0; i < t->len; ++i){
+		if (state->source->data[t->ofs + i] == '.') return false;
+	}
+	return true;
+}
+
 /// Checks if the code of the current tokens fits into the output, leaving
 /// space for an error.
 bool code_fits(struct tokenizer* state){
@@ -338,19 +347,28 @@ bool code_fits(struct tokenizer* state){
 	idx needed = TOK_CODE_ERROR_SIZE;
 	for (size_t i = 0; i < state->token_i; ++i){
 		switch (state->tokens[i].type){
-			case string:
-			case label:
-			case label_string:
 			case name:
 			case array_name:
 			case array_actual:
 			case dim_arr:
+				if (state->tokens[i].len == 1){
+					needed += 2; // takes the place of the length
+					break;
+				}
+				// fall through
+			case string:
+			case label:
+			case label_string:
 				// instruction, length, content, padding
-				needed += 2 + state->tokens[i].len + 1;
+				needed += 2 + state->tokens[i].len + (state->tokens[i].len & 1);
 				break;
 			case number:
 			case base_number:
-				needed += 6;
+				if (is_short_number(state, &state->tokens[i])){
+					needed += 2;
+				} else {
+					needed += 6;
+				}
 				break;
 			case command:
 			case first_of_line_command:
-- 
2.43.0


From 83956c03554e7b539f95649e3a220bb6fdbd7e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:28 +0000
Subject: [PATCH 102/127] fix: values assigned to system variables stayed
 unchecked if the rest of the line was not executed

---
 source/interpreter/tokens.c | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/source/interpreter/tokens.c b/source/interpreter/tokens.c
index d3ff72f..912a19d 100644
--- a/source/interpreter/tokens.c
+++ b/source/interpreter/tokens.c
@@ -969,6 +969,18 @@ int tok_code(struct tokenizer* state){
 				data[(*size)++] = op;
 				
 				iprintf("%d", data[*size-1]);
+				
+				// Validation must happen right after the assignment, as the rest
+				// of the line might not be executed
+				if (op == OP_ASSIGN && (sys_validate & SYSVAR_NEEDS_VALIDATE)){
+					for (int i = 0; i < 64; ++i){
+						if (sys_validate & ((uint64_t)1 << i) & SYSVAR_NEEDS_VALIDATE){
+							data[(*size)++] = BC_SYSVAR_VALIDATE;
+							data[(*size)++] = i;
+						}
+					}
+					sys_validate = 0;
+				}
 				break;
 				
 			case function:
@@ -1082,16 +1094,6 @@ int tok_code(struct tokenizer* state){
 		}
 	}
 	
-	// Validation must be placed at end to happen after assignment
-	if (sys_validate & SYSVAR_NEEDS_VALIDATE){
-		for (int i = 0; i < 64; ++i){
-			if (sys_validate & ((uint64_t)1 << i) & SYSVAR_NEEDS_VALIDATE){
-				data[(*size)++] = BC_SYSVAR_VALIDATE;
-				data[(*size)++] = i;
-			}
-		}
-	}
-	
 	state->token_i = 0;
 	return ERR_NONE;
 }
-- 
2.43.0


From 8690482c952b8dd7771eef0585563946822a0f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:56 +0000
Subject: [PATCH 103/127] fix: system variables assigned by a malformed
 statement stayed unchecked

---
 source/interpreter/tokens.c | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/source/interpreter/tokens.c b/source/interpreter/tokens.c
index 912a19d..ef8b0d6 100644
--- a/source/interpreter/tokens.c
+++ b/source/interpreter/tokens.c
@@ -340,11 +340,22 @@ static bool is_short_number(struct tokenizer* state, struct token* t){
 	return true;
 }
 
+/// Sysvars that allow assignment (and thus need validation)
+#define SYSVAR_NEEDS_VALIDATE (\
+		((uint64_t)1 << SYS_ICONPAGE) |\
+		((uint64_t)1 << SYS_ICONPMAX) |\
+		((uint64_t)1 << SYS_ICONPUSE) |\
+		((uint64_t)1 << SYS_TABSTEP) |\
+		((uint64_t)1 << SYS_MEM) |\
+		((uint64_t)1 << SYS_MEMSAFE)\
+	)
+
 /// Checks if the code of the current tokens fits into the output, leaving
 /// space for an error.
 bool code_fits(struct tokenizer* state){
 	if (!state->output->labels.code_max) return true; // size is not known
 	idx needed = TOK_CODE_ERROR_SIZE;
+	uint64_t sys_validate = 0; // checked after each assignment
 	for (size_t i = 0; i < state->token_i; ++i){
 		switch (state->tokens[i].type){
 			case name:
@@ -378,7 +389,14 @@ bool code_fits(struct tokenizer* state){
 				needed += 2;
 				break;
 			case sysvar:
-				needed += 4; // includes check of the value
+				sys_validate |= ((uint64_t)1 << state->tokens[i].cmd) & SYSVAR_NEEDS_VALIDATE;
+				needed += 2;
+				break;
+			case operation:
+				if (state->tokens[i].cmd == OP_ASSIGN){
+					needed += 2 * __builtin_popcountll(sys_validate);
+				}
+				needed += 2;
 				break;
 			default:
 				needed += 2;
@@ -558,16 +576,6 @@ bool check_cmd(const char* stack, int stack_len, const char* valid){
 	return is_valid;
 }
 
-/// Sysvars that allow assignment (and thus need validation)
-#define SYSVAR_NEEDS_VALIDATE (\
-		((uint64_t)1 << SYS_ICONPAGE) |\
-		((uint64_t)1 << SYS_ICONPMAX) |\
-		((uint64_t)1 << SYS_ICONPUSE) |\
-		((uint64_t)1 << SYS_TABSTEP) |\
-		((uint64_t)1 << SYS_MEM) |\
-		((uint64_t)1 << SYS_MEMSAFE)\
-	)
-
 int tok_test(struct tokenizer* state){
 	// This is argument count and argument type validation.
 	char stack[TOKENS_LINE_MAX+1];
@@ -979,7 +987,6 @@ int tok_code(struct tokenizer* state){
 							data[(*size)++] = i;
 						}
 					}
-					sys_validate = 0;
 				}
 				break;
 				
-- 
2.43.0


From f5b86028a73730d74342c3308c34f06b6992a038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:36 +0000
Subject: [PATCH 104/127] fix: NEXT of a FOR without a loop end read past the
 value stack

---
 source/interpreter/flow.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/interpreter/flow.c b/source/interpreter/flow.c
index 77a21db..1628a1a 100644
--- a/source/interpreter/flow.c
+++ b/source/interpreter/flow.c
@@ -119,6 +119,9 @@ void cmd_next(struct ptc* p){
 	if (p->exec.error) return;
 	
 	// now stack should contain (END, [STEP])
+	if (!p->stack.stack_i){
+		ERROR(ERR_BEGIN_LOOP_NO_END);
+	}
 	s32* current = (s32*)c->var;
 	s32 end = STACK_NUM(0);
 	s32 step;
-- 
2.43.0


From 72fa4c85aa0cc8064b5cc22461cdd2e2f0b0bd9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:00 +0000
Subject: [PATCH 105/127] fix: ICONPAGE became negative when ICONPMAX was
 assigned a negative number in the same line

---
 source/subsystem/panel.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/subsystem/panel.c b/source/subsystem/panel.c
index cd829fb..0bd8fc2 100644
--- a/source/subsystem/panel.c
+++ b/source/subsystem/panel.c
@@ -508,7 +508,8 @@ void syschk_iconpmax(struct ptc* p){
 void syschk_iconpage(struct ptc* p){
 	if (p->panel.iconpage > p->panel.iconpmax){
 		p->panel.iconpage = p->panel.iconpmax;
-	} else if (p->panel.iconpage < 0){
+	}
+	if (p->panel.iconpage < 0){
 		p->panel.iconpage = 0;
 	} else {
 		p->panel.iconpage &= ((uint32_t)-1 << FIXPOINT); // must be integer
-- 
2.43.0


From f12b3f3bfa3b56f66573be694b11e5bb5ed0d927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:57 +0000
Subject: [PATCH 106/127] fix: BREAK was lost while a program was compiled

---
 source/interpreter/runner.c | 8 ++++++--
 source/system.c             | 4 +++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/source/interpreter/runner.c b/source/interpreter/runner.c
index f49a2ac..005e2ac 100644
--- a/source/interpreter/runner.c
+++ b/source/interpreter/runner.c
@@ -605,7 +605,9 @@ void cmd_exec(struct ptc* p){
 	}
 
 	// tokenize updates all relevant exec.code values
-	p->exec.error = tokenize(&p->exec.prg, &p->exec.code);
+	// (keep a BREAK that occurs while compiling)
+	int error = tokenize(&p->exec.prg, &p->exec.code);
+	if (error) p->exec.error = error;
 //	iprintf("new=%d\n", p->exec.code.size);
 	// error set if needed; otherwise, execute
 	// EXEC is called from run, so running happens naturally. Just reset the necessary values.
@@ -620,7 +622,9 @@ void cmd_exec(struct ptc* p){
 
 void cmd_run(struct ptc* p){
 	// tokenize updates all relevant exec.code values
-	p->exec.error = tokenize_full(&p->exec.prg, &p->exec.code, p, TOKOPT_NONE);
+	// (keep a BREAK that occurs while compiling)
+	int error = tokenize_full(&p->exec.prg, &p->exec.code, p, TOKOPT_NONE);
+	if (error) p->exec.error = error;
 //	iprintf("new=%d\n", p->exec.code.size);
 	// error set if needed; otherwise, execute
 	// EXEC is called from run, so running happens naturally. Just reset the necessary values.
diff --git a/source/system.c b/source/system.c
index c5f5efd..b194467 100644
--- a/source/system.c
+++ b/source/system.c
@@ -322,7 +322,9 @@ void system_debug(struct ptc* p, enum launch_debug debug){
 int token_and_run(struct ptc* p, struct program* prg, struct bytecode* bc, int tokopts){
 	p->exec.error = ERR_NONE;
 	p->calls.stack_i = 0;
-	p->exec.error = tokenize_full(prg, bc, p, tokopts);
+	// keep a BREAK that occurs while compiling
+	int error = tokenize_full(prg, bc, p, tokopts);
+	if (error) p->exec.error = error;
 	if (p->exec.error == ERR_NONE){
 		run(*bc, p);
 	}
-- 
2.43.0


From 8ce1d8e4381934dce089c768a6eeab39d71ea1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:57 +0000
Subject: [PATCH 107/127] fix: the program thread could miss the end of the
 system and never end

---
 source/main.c   |  1 +
 source/system.c | 23 ++++++++++++++---------
 source/system.h |  4 ++++
 3 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/source/main.c b/source/main.c
index 7655672..f8b5503 100644
--- a/source/main.c
+++ b/source/main.c
@@ -314,6 +314,7 @@ int main(int argc, char** argv){
 	sfRenderWindow_destroy(window);
 
 	// this causes program to stop execution after instruction finishes
+	ptc->shutdown = true;
 	ptc->exec.error = ERR_SHUTDOWN;
 	iprintf("Waiting for program thread to terminate\n");
 	thrd_join(prog_thread, NULL);
diff --git a/source/system.c b/source/system.c
index b194467..bc67f17 100644
--- a/source/system.c
+++ b/source/system.c
@@ -319,8 +319,15 @@ void system_debug(struct ptc* p, enum launch_debug debug){
 /// Note that this clears the error code and call stack.
 ///
 /// @return Error code of execution
-int token_and_run(struct ptc* p, struct program* prg, struct bytecode* bc, int tokopts){
+/// Clears the error for the next execution, unless the system has to end.
+static void clear_error(struct ptc* p){
 	p->exec.error = ERR_NONE;
+	// ERR_SHUTDOWN may have been cleared or replaced by another error
+	if (p->shutdown) p->exec.error = ERR_SHUTDOWN;
+}
+
+int token_and_run(struct ptc* p, struct program* prg, struct bytecode* bc, int tokopts){
+	clear_error(p);
 	p->calls.stack_i = 0;
 	// keep a BREAK that occurs while compiling
 	int error = tokenize_full(prg, bc, p, tokopts);
@@ -366,7 +373,6 @@ int launch_system(void* launch_info){
 	// Setup complete
 	con_puts(&p->console, "S\45Small BASIC Computer            READY");
 	con_newline(&p->console, true);
-	bool running = true;
 	
 	int state = LAUNCH_PROMPT;
 	int debug = 0;
@@ -376,9 +382,8 @@ int launch_system(void* launch_info){
 	
 	// TODO:IMPL:LOW Add configuration method for optimizations
 	int opts = TOKOPT_NONE;
-	while (running){
-		running = p->exec.error != ERR_SHUTDOWN;
-		p->exec.error = ERR_NONE; // prepare for next execution
+	while (true){
+		clear_error(p); // prepare for next execution
 		p->calls.stack_i = 0; // TODO:IMPL:MED Determine a better way to handle this
 		int old_state = state;
 		iprintf("MAIN state=%d\n", state);
@@ -410,7 +415,7 @@ int launch_system(void* launch_info){
 					if (sig == 72){ // EDIT
 						state = LAUNCH_EDIT;
 					}
-					p->exec.error = ERR_NONE; // clear signal
+					clear_error(p); // clear signal
 					p->exec.error_info[0] = 0; // clear signal info
 					break;
 				}
@@ -429,14 +434,14 @@ int launch_system(void* launch_info){
 				break;
 				
 			case LAUNCH_EDIT: // EDIT mode
-				p->exec.error = ERR_NONE;
+				clear_error(p);
 				run(editor_bc, p);
 				int sig = p->exec.error_info[0];
 				// TODO:IMPL:LOW style buttons correctly for each mode
 				if (p->exec.error == ERR_USER_SIGNAL){
 					if (sig == 1){ // run program
 						state = LAUNCH_RUN;
-						p->exec.error = ERR_NONE;
+						clear_error(p);
 						p->exec.error_info[0] = 0; // clear signal info
 					}
 				} else {
@@ -485,7 +490,7 @@ int launch_system(void* launch_info){
 			break;
 		}
 		// clear error status for next execution
-		p->exec.error = ERR_NONE;
+		clear_error(p);
 		p->exec.error_info[0] = '\0'; // remove error string
 	}
 	
diff --git a/source/system.h b/source/system.h
index c1f06da..97c5d4b 100644
--- a/source/system.h
+++ b/source/system.h
@@ -81,6 +81,10 @@ struct ptc {
 	struct display display;
 	// memory access system (system-specific)
 	struct memory_api memapi;
+	
+	/// Set (before ERR_SHUTDOWN) when the system has to end. Unlike the error,
+	/// this is never cleared.
+	atomic_bool shutdown;
 };
 
 /// Inititalizes the system struct. This allocates lots of memory, some of which can be
-- 
2.43.0


From b5fc743330e8c04c6e0963a798887c01adf6107a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:57 +0000
Subject: [PATCH 108/127] fix: BUTTON, BTRIG and BREPEAT mixed the buttons of
 two frames

---
 source/main.c            |  4 +++-
 source/subsystem/input.c |  3 +++
 source/system.c          |  5 +++++
 source/system.h          | 16 ++++++++++++++++
 4 files changed, 27 insertions(+), 1 deletion(-)

diff --git a/source/main.c b/source/main.c
index f8b5503..58b75ab 100644
--- a/source/main.c
+++ b/source/main.c
@@ -280,7 +280,8 @@ int main(int argc, char** argv){
 			}
 		}
 		
-		// various frame updates
+		// various frame updates (the program waits if it uses the same state)
+		mtx_lock(&ptc->frame_mtx);
 		for (int i = 0; i < BUTTON_COUNT; ++i){
 			b |= sfKeyboard_isKeyPressed(keys[key_mode][i]) << i;
 		}
@@ -306,6 +307,7 @@ int main(int argc, char** argv){
 		step_sprites(&ptc->sprites);
 		step_background(&ptc->background);
 		inc_time(&ptc->time);
+		mtx_unlock(&ptc->frame_mtx);
 		
 		display_draw_all(ptc);
 	}
diff --git a/source/subsystem/input.c b/source/subsystem/input.c
index 2c1f25b..841441b 100644
--- a/source/subsystem/input.c
+++ b/source/subsystem/input.c
@@ -131,6 +131,7 @@ void cmd_brepeat(struct ptc* p){
 	// BREPEAT id[,start,repeat]
 	// https://petitcomputer.fandom.com/wiki/BREPEAT_(Command)
 	// Apparently 12 is a valid ID, even if it doesn't seem to do anything?
+	FRAME_LOCK(p);
 	int id;
 	STACK_INT_RANGE(0,0,12,id);
 	//TODO:IMPL:NONE Figure out what this does and add it maybe?
@@ -148,6 +149,7 @@ void cmd_brepeat(struct ptc* p){
 }
 
 void func_btrig(struct ptc* p){
+	FRAME_LOCK(p);
 	struct input* i = &p->input;
 	
 	s32 b = 0;
@@ -159,6 +161,7 @@ void func_btrig(struct ptc* p){
 }
 
 void func_button(struct ptc* p){
+	FRAME_LOCK(p);
 	struct input* i = &p->input;
 	int mode = 0;
 	if (p->exec.argcount == 1){
diff --git a/source/system.c b/source/system.c
index bc67f17..1848e6d 100644
--- a/source/system.c
+++ b/source/system.c
@@ -41,6 +41,11 @@ struct ptc* init_system(int var, int str, int arr, bool headless){
 
 	init_mem_arr(&ptc->arrs, var, arr);
 	ptc->vars.strs = &ptc->strs;
+#ifdef PC
+	if (mtx_init(&ptc->frame_mtx, mtx_plain) != thrd_success){
+		ABORT("Error creating frame_mtx mutex");
+	}
+#endif
 	ptc->vars.arrs = &ptc->arrs;
 
 	// init various subsystems
diff --git a/source/system.h b/source/system.h
index 97c5d4b..7a2dfeb 100644
--- a/source/system.h
+++ b/source/system.h
@@ -85,8 +85,24 @@ struct ptc {
 	/// Set (before ERR_SHUTDOWN) when the system has to end. Unlike the error,
 	/// this is never cleared.
 	atomic_bool shutdown;
+	
+#ifdef PC
+	/// Held by the window thread while it updates the state of a frame (buttons,
+	/// panel keys, sprites and backgrounds).
+	mtx_t frame_mtx;
+#endif
 };
 
+#ifdef PC
+static inline void frame_unlock(mtx_t** mtx){
+	mtx_unlock(*mtx);
+}
+/// Keeps the window thread from updating the frame until the end of the block
+#define FRAME_LOCK(p) mtx_t* frame_lock __attribute__((cleanup(frame_unlock))) = &(p)->frame_mtx; mtx_lock(frame_lock)
+#else
+#define FRAME_LOCK(p)
+#endif
+
 /// Inititalizes the system struct. This allocates lots of memory, some of which can be
 /// parameterized. This does NOT include allocations for program code itself.
 ///
-- 
2.43.0


From 4cf5a726b8fa86d9300037eea89a6603797edbcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:57 +0000
Subject: [PATCH 109/127] fix: panel keys pressed while the program changes the
 panel used a mixture of both states

---
 source/subsystem/console.c | 10 ++++++++--
 source/subsystem/panel.c   | 23 +++++++++++++++++++++--
 source/subsystem/sysvars.c |  2 ++
 3 files changed, 31 insertions(+), 4 deletions(-)

diff --git a/source/subsystem/console.c b/source/subsystem/console.c
index bd669db..789425b 100644
--- a/source/subsystem/console.c
+++ b/source/subsystem/console.c
@@ -220,17 +220,23 @@ u16* shared_input(struct ptc* p, int* len){
 	set_panel_type(p, PNL_KYA);
 	do {
 		// wait for a frame to pass
-		int t = get_time(&p->time);
+		// (time and key of the same frame: a key must not count for two frames)
+		int t;
+		{
+			FRAME_LOCK(p);
+			t = get_time(&p->time);
+			keyboard = get_pressed_key(p);
+		}
 		// This test_mode check isn't ideal, but it allows test
 		// cases to run without waiting for an update from another thread
 		inkey = get_inkey(&p->input);
-		keyboard = get_pressed_key(p);
 		bool replace = !(p->panel.cursor & PNL_INSERT);
 		while (!inkey && !con->test_mode && t == get_time(&p->time) && !p->exec.error){
 			// sleep for user input
 			struct timespec tspec = {.tv_nsec=FRAME_TENTH_NS};
 			thrd_sleep(&tspec, NULL);
 		}
+		FRAME_LOCK(p);
 		// Typed characters come first: only when there are none, a frame has passed
 		// and the buttons are new.
 		if (inkey){
diff --git a/source/subsystem/panel.c b/source/subsystem/panel.c
index 0bd8fc2..fde0d4d 100644
--- a/source/subsystem/panel.c
+++ b/source/subsystem/panel.c
@@ -164,6 +164,7 @@ void free_panel(struct ptc* p){
 
 // Switches the panel and updates everything displayed on it
 void set_panel_type(struct ptc* p, enum pnltype type){
+	FRAME_LOCK(p);
 	enum pnltype old_type = p->panel.type;
 	if (old_type == type) return;
 	
@@ -218,12 +219,14 @@ void cmd_key(struct ptc* p){
 	STACK_INT_RANGE(0,1,5,key_id);
 	void* key_str = STACK_STR(1);
 	
+	FRAME_LOCK(p);
 	// updates visual and data
 	set_function_key(p, key_id, key_str);
 }
 
 void cmd_iconset(struct ptc* p){
 	// ICONSET id,icon
+	FRAME_LOCK(p);
 	int i, icon;
 	STACK_INT_RANGE(0,0,3,i);
 	STACK_INT_RANGE(1,0,64,icon);
@@ -233,6 +236,7 @@ void cmd_iconset(struct ptc* p){
 
 void cmd_iconclr(struct ptc* p){
 	// ICONCLR [id]
+	FRAME_LOCK(p);
 	if (p->stack.stack_i){
 		int id;
 		STACK_INT_RANGE(0,0,3,id);
@@ -245,6 +249,7 @@ void cmd_iconclr(struct ptc* p){
 }
 
 void func_iconchk(struct ptc* p){
+	FRAME_LOCK(p);
 	int icon = get_pressed_key(p);
 	if (icon >= 90 && icon <= 94 && p->panel.keys[p->panel.id_pressed].active){
 		stack_push(&p->stack, (struct stack_entry){VAR_NUMBER, {INT_TO_FP(icon - 90)}});
@@ -345,6 +350,16 @@ static int key_at(struct panel* p, int x, int y){
 	return c;
 }
 
+// Changes ICONPAGE, unless the program assigned it in the meantime
+static void move_iconpage(struct panel* p, fixp from, fixp to){
+#ifdef PC
+	__atomic_compare_exchange_n(&p->iconpage, &from, to, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);
+#else
+	(void)from;
+	p->iconpage = to;
+#endif
+}
+
 void press_key(struct ptc* ptc, bool t, int x, int y){
 	struct panel* p = &ptc->panel;
 	if (!t){
@@ -376,10 +391,11 @@ void press_key(struct ptc* ptc, bool t, int x, int y){
 	}
 	
 	int pressed_key = get_pressed_key(ptc);
+	fixp page = p->iconpage;
 	if (pressed_key == 80){
-		p->iconpage -= INT_TO_FP(p->iconpage > 0);
+		move_iconpage(p, page, page - INT_TO_FP(page > 0));
 	} else if (pressed_key == 81){
-		p->iconpage += INT_TO_FP(p->iconpage < p->iconpmax);
+		move_iconpage(p, page, page + INT_TO_FP(page < p->iconpmax));
 	}
 	iprintf("pressed_key=%d\n", pressed_key);
 	if (p->type == PNL_OFF || p->type == PNL_PNL) return;
@@ -485,6 +501,7 @@ void sys_iconpuse(struct ptc* p){
 
 // ICONPUSE is always TRUE or FALSE (1 or 0)
 void syschk_iconpuse(struct ptc* p){
+	FRAME_LOCK(p);
 	p->panel.iconpuse = INT_TO_FP(p->panel.iconpuse != 0);
 
 	p->panel.keys[ICON_PAGE_START].active = p->panel.iconpuse;
@@ -493,6 +510,7 @@ void syschk_iconpuse(struct ptc* p){
 
 // ICONPMAX is always positive
 void syschk_iconpmax(struct ptc* p){
+	FRAME_LOCK(p);
 	if (p->panel.iconpmax < 0){
 		p->panel.iconpmax = 0;
 	} else {
@@ -506,6 +524,7 @@ void syschk_iconpmax(struct ptc* p){
 // if it is outside the valid range. (possibly only if the move places it out of range?)
 // This implementation will reset the value on reads as well though, which it should not.
 void syschk_iconpage(struct ptc* p){
+	FRAME_LOCK(p);
 	if (p->panel.iconpage > p->panel.iconpmax){
 		p->panel.iconpage = p->panel.iconpmax;
 	}
diff --git a/source/subsystem/sysvars.c b/source/subsystem/sysvars.c
index d5c0350..fd545b7 100644
--- a/source/subsystem/sysvars.c
+++ b/source/subsystem/sysvars.c
@@ -173,11 +173,13 @@ void sys_freevar(struct ptc* p){
 }
 
 void sys_keyboard(struct ptc* p){
+	FRAME_LOCK(p);
 	int k = get_pressed_key(p);
 	STACK_RETURN_INT(k <= 69 ? k : 0);
 }
 
 void sys_funcno(struct ptc* p){
+	FRAME_LOCK(p);
 	int k = get_pressed_key(p);
 	
 	STACK_RETURN_INT(k >= 101 && k <= 105 ? k - 100 : 0);
-- 
2.43.0


From b001c847e26d374ee5ef72c7ab9ee5cfcf1dc5ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:58 +0000
Subject: [PATCH 110/127] fix: sprite commands and the movement of a frame
 undid parts of each other

---
 source/subsystem/sprites.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/source/subsystem/sprites.c b/source/subsystem/sprites.c
index 5f3285e..0124d42 100644
--- a/source/subsystem/sprites.c
+++ b/source/subsystem/sprites.c
@@ -219,6 +219,7 @@ int get_sprite_chr(struct sprite_info* s){
 }
 
 void cmd_sppage(struct ptc* p){
+	FRAME_LOCK(p);
 	int page;
 	STACK_INT_RANGE(0, 0, SCREEN_COUNT-1, page);
 	
@@ -226,6 +227,7 @@ void cmd_sppage(struct ptc* p){
 }
 
 void cmd_spclr(struct ptc* p){
+	FRAME_LOCK(p);
 	if (p->stack.stack_i == 1){
 		// SPCLR id
 		int index;
@@ -253,6 +255,7 @@ static bool is_sprite_size(int w, int h){
 }
 
 void cmd_spset(struct ptc* p){
+	FRAME_LOCK(p);
 	int id;
 	int chr;
 	int pal;
@@ -276,6 +279,7 @@ void cmd_spset(struct ptc* p){
 }
 
 void cmd_spofs(struct ptc* p){
+	FRAME_LOCK(p);
 	int id;
 	fixp x;
 	fixp y;
@@ -306,6 +310,7 @@ void cmd_spofs(struct ptc* p){
 }
 
 void cmd_spsetv(struct ptc* p){
+	FRAME_LOCK(p);
 	// SPSETV id,ix,val
 	int id;
 	int ix;
@@ -320,6 +325,7 @@ void cmd_spsetv(struct ptc* p){
 }
 
 void func_spgetv(struct ptc* p){
+	FRAME_LOCK(p);
 	// SPGETV id,ix
 	int id;
 	int ix;
@@ -350,6 +356,7 @@ void func_spgetv(struct ptc* p){
 /// 
 /// @param p System struct
 void cmd_spcol(struct ptc* p){
+	FRAME_LOCK(p);
 	int id;
 	int x;
 	int y;
@@ -380,6 +387,7 @@ void cmd_spcol(struct ptc* p){
 }
 
 void cmd_spcolvec(struct ptc* p){
+	FRAME_LOCK(p);
 	int id;
 	int dx;
 	int dy;
@@ -397,6 +405,7 @@ void cmd_spcolvec(struct ptc* p){
 }
 
 void cmd_sphome(struct ptc* p){
+	FRAME_LOCK(p);
 	int id;
 	STACK_INT_RANGE(0,0,99,id);
 	int x = STACK_INT(1) & 0xff; // TODO:TEST:MED check that this is correct
@@ -411,6 +420,7 @@ void cmd_sphome(struct ptc* p){
 }
 
 void cmd_spscale(struct ptc* p){
+	FRAME_LOCK(p);
 	int id, scale, time;
 	STACK_INT_RANGE(0,0,31,id);
 	STACK_INT_RANGE(1,0,200,scale);
@@ -432,6 +442,7 @@ void cmd_spscale(struct ptc* p){
 }
 
 void func_sphit(struct ptc* p){
+	FRAME_LOCK(p);
 	int id;
 	int start;
 	start = 0;
@@ -465,6 +476,7 @@ void func_sphit(struct ptc* p){
 }
 
 void func_sphitsp(struct ptc* p){
+	FRAME_LOCK(p);
 	int id;
 	int other_id;
 	STACK_REL_INT_RANGE(-1,0,99,id);
@@ -487,6 +499,7 @@ void func_sphitsp(struct ptc* p){
 }
 
 void cmd_spangle(struct ptc* p){
+	FRAME_LOCK(p);
 	int id;
 	int angle;
 	STACK_INT_RANGE(0,0,99,id);
@@ -531,6 +544,7 @@ void cmd_spangle(struct ptc* p){
 }
 
 void cmd_spchr(struct ptc* p){
+	FRAME_LOCK(p);
 	int id, chr;
 	STACK_INT_RANGE(0,0,99,id);
 	struct sprite_info* s = &p->sprites.info[p->sprites.page][id];
@@ -561,6 +575,7 @@ void cmd_spchr(struct ptc* p){
 }
 
 void func_spchk(struct ptc* p){
+	FRAME_LOCK(p);
 	int id;
 	STACK_REL_INT_RANGE(-1,0,99,id);
 	p->stack.stack_i -= 1;
@@ -578,6 +593,7 @@ void func_spchk(struct ptc* p){
 }
 
 void cmd_spread(struct ptc* p){
+	FRAME_LOCK(p);
 	int id;
 	STACK_INT_RANGE(0,0,99,id);
 	struct sprite_info* s = &p->sprites.info[p->sprites.page][id];
@@ -609,6 +625,7 @@ void cmd_spread(struct ptc* p){
 }
 
 void cmd_spanim(struct ptc* p){
+	FRAME_LOCK(p);
 	// SPANIM id chrs time [loop]
 	int id, chrs, time;
 	// TODO:ERR:LOW Determine errors
-- 
2.43.0


From af4b2d117a6e5d0f48298b3bc55dae3c086834ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:58 +0000
Subject: [PATCH 111/127] fix: BGOFS while a scroll ends could divide by zero
 or leave a mixture

---
 source/subsystem/background.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/subsystem/background.c b/source/subsystem/background.c
index cf4f40b..b08a453 100644
--- a/source/subsystem/background.c
+++ b/source/subsystem/background.c
@@ -173,6 +173,7 @@ void cmd_bgfill(struct ptc* p){
 }
 
 void cmd_bgofs(struct ptc* p){
+	FRAME_LOCK(p);
 	int layer, time;
 	fixp x, y;
 	STACK_INT_RANGE(0,0,1,layer);
@@ -314,6 +315,7 @@ void cmd_bgcopy(struct ptc* p){
 }
 
 void func_bgchk(struct ptc* p){
+	FRAME_LOCK(p);
 	int layer;
 	STACK_REL_INT_RANGE(-1,0,1,layer);
 	p->stack.stack_i -= 1;
-- 
2.43.0


From 86f029584f9b8627522b8631de62d698545b17cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:43 +0000
Subject: [PATCH 112/127] fix: kana typed on the host keyboard arrived as other
 characters

---
 source/main.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/main.c b/source/main.c
index 58b75ab..a690f19 100644
--- a/source/main.c
+++ b/source/main.c
@@ -254,8 +254,9 @@ int main(int argc, char** argv){
 						set_inkey(&ptc->input, to_wide(event.text.unicode));
 					}
 				} else if (event.text.unicode >= 12289 && event.text.unicode <= 12540){
-					if (to_char(event.text.unicode) >= 0xa1){
-						set_inkey(&ptc->input, event.text.unicode - 12289);
+					// only characters that have a character code
+					if (to_wide(to_char(event.text.unicode)) == event.text.unicode){
+						set_inkey(&ptc->input, event.text.unicode);
 					}
 				}
 			}
-- 
2.43.0


From 15ff3e073835b512227b3b0e71f7914bfaf0f7f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:37 +0000
Subject: [PATCH 113/127] fix: characters and colours changed while a frame was
 drawn were never shown

---
 source/graphics/pc/display_pc.c | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/source/graphics/pc/display_pc.c b/source/graphics/pc/display_pc.c
index 2394bc9..bfdcbd3 100644
--- a/source/graphics/pc/display_pc.c
+++ b/source/graphics/pc/display_pc.c
@@ -149,34 +149,35 @@ void display_draw_all(struct ptc* p){
 	// TODO:PERF:MED Reuse texture memory instead of destroying and regenerating
 	for (int page = 0; page <= 1; ++page){
 		if (r->regen_chr[0 + CHR_BANKS * page] || r->regen_chr[1 + CHR_BANKS * page]){
-			sfTexture_destroy(d->chr_tex[0+5*page]);
-			d->chr_tex[0+5*page] = gen_chr_texture(r->chr[0+CHR_BANKS*page], 512); //BGF
+			// cleared first: a change made from here on is shown by the next frame
 			r->regen_chr[0 + CHR_BANKS * page] = false;
 			r->regen_chr[1 + CHR_BANKS * page] = false;
+			sfTexture_destroy(d->chr_tex[0+5*page]);
+			d->chr_tex[0+5*page] = gen_chr_texture(r->chr[0+CHR_BANKS*page], 512); //BGF
 		}
 		if (r->regen_chr[4 + CHR_BANKS * page] ||
 			r->regen_chr[5 + CHR_BANKS * page] ||
 			r->regen_chr[6 + CHR_BANKS * page] ||
 			r->regen_chr[7 + CHR_BANKS * page])
 		{
-			sfTexture_destroy(d->chr_tex[1+5*page]);
-			d->chr_tex[1+5*page] = gen_chr_texture(r->chr[4+CHR_BANKS*page], 1024); //BGD
 			r->regen_chr[4 + CHR_BANKS * page] = false;
 			r->regen_chr[5 + CHR_BANKS * page] = false;
 			r->regen_chr[6 + CHR_BANKS * page] = false;
 			r->regen_chr[7 + CHR_BANKS * page] = false;
+			sfTexture_destroy(d->chr_tex[1+5*page]);
+			d->chr_tex[1+5*page] = gen_chr_texture(r->chr[4+CHR_BANKS*page], 1024); //BGD
 		}
 		if (r->regen_chr[8 + CHR_BANKS * page] ||
 			r->regen_chr[9 + CHR_BANKS * page] ||
 			r->regen_chr[10 + CHR_BANKS * page] ||
 			r->regen_chr[11 + CHR_BANKS * page])
 		{
-			sfTexture_destroy(d->chr_tex[2+5*page]);
-			d->chr_tex[2+5*page] = gen_chr_texture(r->chr[8+CHR_BANKS*page], 1024); //BGU
 			r->regen_chr[8 + CHR_BANKS * page] = false;
 			r->regen_chr[9 + CHR_BANKS * page] = false;
 			r->regen_chr[10 + CHR_BANKS * page] = false;
 			r->regen_chr[11 + CHR_BANKS * page] = false;
+			sfTexture_destroy(d->chr_tex[2+5*page]);
+			d->chr_tex[2+5*page] = gen_chr_texture(r->chr[8+CHR_BANKS*page], 1024); //BGU
 		}
 		if (r->regen_chr[12 + CHR_BANKS * page] ||
 			r->regen_chr[13 + CHR_BANKS * page] ||
@@ -187,8 +188,6 @@ void display_draw_all(struct ptc* p){
 			r->regen_chr[18 + CHR_BANKS * page] ||
 			r->regen_chr[19 + CHR_BANKS * page])
 		{
-			sfTexture_destroy(d->chr_tex[3+5*page]);
-			d->chr_tex[3+5*page] = gen_chr_texture(r->chr[12+CHR_BANKS*page], 2048); // SPU or SPD
 			r->regen_chr[12 + CHR_BANKS * page] = false;
 			r->regen_chr[13 + CHR_BANKS * page] = false;
 			r->regen_chr[14 + CHR_BANKS * page] = false;
@@ -197,21 +196,23 @@ void display_draw_all(struct ptc* p){
 			r->regen_chr[17 + CHR_BANKS * page] = false;
 			r->regen_chr[18 + CHR_BANKS * page] = false;
 			r->regen_chr[19 + CHR_BANKS * page] = false;
+			sfTexture_destroy(d->chr_tex[3+5*page]);
+			d->chr_tex[3+5*page] = gen_chr_texture(r->chr[12+CHR_BANKS*page], 2048); // SPU or SPD
 		}
 		if (r->regen_chr[20 + CHR_BANKS * page] ||
 			r->regen_chr[21 + CHR_BANKS * page])
 		{
-			sfTexture_destroy(d->chr_tex[4+5*page]);
-			d->chr_tex[4+5*page] = gen_chr_texture(r->chr[20+CHR_BANKS*page], 512); //SPS
 			r->regen_chr[20 + CHR_BANKS * page] = false;
 			r->regen_chr[21 + CHR_BANKS * page] = false;
+			sfTexture_destroy(d->chr_tex[4+5*page]);
+			d->chr_tex[4+5*page] = gen_chr_texture(r->chr[20+CHR_BANKS*page], 512); //SPS
 		}
 	}
 	
 	if (r->regen_col){
+		r->regen_col = false;
 		sfTexture_destroy(d->col_tex);
 		d->col_tex = gen_col_texture(r->col_banks);
-		r->regen_col = false;
 	}
 	
 	sfShader_setTextureUniform(shader, "colors", d->col_tex);
-- 
2.43.0


From a8152e98054432912240b19a2eff04ce00734942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:33 +0000
Subject: [PATCH 114/127] fix: backgrounds with a negative offset were
 displayed at the wrong place

---
 source/graphics/pc/display_pc.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/graphics/pc/display_pc.c b/source/graphics/pc/display_pc.c
index bfdcbd3..d0e3f5c 100644
--- a/source/graphics/pc/display_pc.c
+++ b/source/graphics/pc/display_pc.c
@@ -329,8 +329,8 @@ void display_background(struct ptc* p, int screen, int layer){
 //	sfRenderWindow_setView(d->rw, d->view);
 	// 0 - 7 -> 0
 	// tile unit to start at
-	int start_x = (uint32_t)(FP_TO_INT(p->background.ofs[screen][layer].x) / 8) % BG_WIDTH;
-	int start_y = (uint32_t)(FP_TO_INT(p->background.ofs[screen][layer].y) / 8) % BG_HEIGHT;
+	int start_x = (uint32_t)(FP_TO_INT(p->background.ofs[screen][layer].x)) / 8 % BG_WIDTH;
+	int start_y = (uint32_t)(FP_TO_INT(p->background.ofs[screen][layer].y)) / 8 % BG_HEIGHT;
 	// offset within tile
 	float ofs_x = (uint32_t)(FP_TO_INT(p->background.ofs[screen][layer].x)) % 8;
 	float ofs_y = (uint32_t)(FP_TO_INT(p->background.ofs[screen][layer].y)) % 8;
-- 
2.43.0


From 48138fe27686860ab988d10aa2798a0e4885cb3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:35 +0000
Subject: [PATCH 115/127] fix: drawing the last icon while pressed read past
 the keys

---
 source/subsystem/panel.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/subsystem/panel.c b/source/subsystem/panel.c
index fde0d4d..e0ff546 100644
--- a/source/subsystem/panel.c
+++ b/source/subsystem/panel.c
@@ -474,7 +474,7 @@ int get_pressed_key(struct ptc* ptc){
 
 void offset_key(struct ptc* p, int id, int d){
 	if (id<PANEL_KEYS){
-		for (int i = id; p->panel.keys[i].vars[0] == p->panel.key_pressed && i<PANEL_KEYS; ++i){
+		for (int i = id; i<PANEL_KEYS && p->panel.keys[i].vars[0] == p->panel.key_pressed; ++i){
 			p->panel.keys[i].pos.x += d;
 			p->panel.keys[i].pos.y += d;
 		}
-- 
2.43.0


From 3386b59fada4ed5f39c325c2c3d5b3f258e6d35e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:54 +0000
Subject: [PATCH 116/127] fix: characters and colours written with POKE,
 MEMFILL or MEMCOPY were not displayed

---
 source/extension/sbc_memory.c |  3 +++
 source/subsystem/resources.c  | 14 ++++++++++++++
 source/subsystem/resources.h  |  1 +
 3 files changed, 18 insertions(+)

diff --git a/source/extension/sbc_memory.c b/source/extension/sbc_memory.c
index 3c01dbf..3014a25 100644
--- a/source/extension/sbc_memory.c
+++ b/source/extension/sbc_memory.c
@@ -42,6 +42,7 @@
 	}\
 	type val = STACK_NUM(1) >> opt_shift;\
 	*(type*)addr = val;\
+	refresh_written_resources(&p->res, addr, sizeof(type));\
 }
 
 void cmd_poke(struct ptc* p){
@@ -89,6 +90,7 @@ void cmd_memcopy(struct ptc* p){
 	}
 	
 	memcpy(dest, src, size);
+	refresh_written_resources(&p->res, dest, size);
 }
 
 void cmd_memfill(struct ptc* p){
@@ -113,6 +115,7 @@ void cmd_memfill(struct ptc* p){
 	}
 	
 	memset(dest, value, size);
+	refresh_written_resources(&p->res, dest, size);
 }
 
 #define SBC_PEEK(type,invalid_align,opt_shift){\
diff --git a/source/subsystem/resources.c b/source/subsystem/resources.c
index 19dcc32..ed705e4 100644
--- a/source/subsystem/resources.c
+++ b/source/subsystem/resources.c
@@ -102,6 +102,20 @@ static u8* read_file(const char* path, int* size){
 	return data;
 }
 
+/// Updates the display after memory was written directly.
+/// @param ptr start of the memory written
+/// @param size number of bytes written
+void refresh_written_resources(struct resources* r, const void* ptr, size_t size){
+	const u8* start = ptr;
+	const u8* end = start + size;
+	for (int i = 0; i < CHR_BANKS*SCREEN_COUNT; ++i){
+		if (start < r->chr[i] + CHR_SIZE && r->chr[i] < end) r->regen_chr[i] = true;
+	}
+	for (int i = 0; i < COL_BANKS*SCREEN_COUNT; ++i){
+		if (start < (u8*)r->col[i] + COL_SIZE && (u8*)r->col[i] < end) r->regen_col = true;
+	}
+}
+
 /// Replace the contents of a resource with loaded data.
 static void set_resource(struct ptc* p, const struct res_info* info, const u8* data){
 	memcpy(info->data, data, resource_size[info->type_id]);
diff --git a/source/subsystem/resources.h b/source/subsystem/resources.h
index d90bf63..ab03528 100644
--- a/source/subsystem/resources.h
+++ b/source/subsystem/resources.h
@@ -235,6 +235,7 @@ bool load_col(u8* dest, const char* path, const char* name);
 bool load_scr(u16* dest, const char* path, const char* name);
 
 void init_resource(struct resources* r);
+void refresh_written_resources(struct resources* r, const void* ptr, size_t size);
 void free_resource(struct resources* r);
 
 int get_chr_index(struct ptc* p, const char* res);
-- 
2.43.0


From d1866ebb7f0f513d9deeeed18c8b5118d3a96137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:25 +0000
Subject: [PATCH 117/127] fix: ntr_to_ptc wrote color files whose last colors
 came from outside of the buffer, and trusted section sizes

---
 util/ntr_to_ptc.c | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/util/ntr_to_ptc.c b/util/ntr_to_ptc.c
index 4677bbc..15d43d8 100644
--- a/util/ntr_to_ptc.c
+++ b/util/ntr_to_ptc.c
@@ -101,8 +101,20 @@ int extract_nclr(FILE* f, const char* name){
 	char pltt_header[PLTT_HEADER_SIZE];
 	SAFE_FREAD(pltt_header, sizeof(char), PLTT_HEADER_SIZE, f);
 
-	uint32_t pltt_size = read_u32(pltt_header + CHAR_SIZE_OFS) - CHAR_HEADER_SIZE;
+	uint32_t pltt_size = read_u32(pltt_header + PLTT_SIZE_OFS);
+	// The section contains its header and a full set of colors
+	if (pltt_size < PLTT_HEADER_SIZE + PTC_COL_BANK_SIZE){
+		printf("Not enough color data in file\n");
+		fclose(f);
+		return FAILURE;
+	}
+	pltt_size -= PLTT_HEADER_SIZE;
 	char* pltt_data = malloc(pltt_size);
+	if (!pltt_data){
+		printf("Failed to allocate %u bytes\n", pltt_size);
+		fclose(f);
+		return FAILURE;
+	}
 	SAFE_FREAD(pltt_data, sizeof(char), pltt_size, f);
 	fclose(f); // done reading; data is stored in memory
 
@@ -136,8 +148,19 @@ int extract_ncgr(FILE* f, const char* prefix){
 	char char_header[CHAR_HEADER_SIZE];
 	SAFE_FREAD(char_header, sizeof(char), CHAR_HEADER_SIZE, f);
 
-	uint32_t char_size = read_u32(char_header + CHAR_SIZE_OFS) - CHAR_HEADER_SIZE;
+	uint32_t char_size = read_u32(char_header + CHAR_SIZE_OFS);
+	if (char_size < CHAR_HEADER_SIZE){
+		printf("Invalid size of character data\n");
+		fclose(f);
+		return FAILURE;
+	}
+	char_size -= CHAR_HEADER_SIZE;
 	char* char_data = malloc(char_size);
+	if (!char_data && char_size){
+		printf("Failed to allocate %u bytes\n", char_size);
+		fclose(f);
+		return FAILURE;
+	}
 	SAFE_FREAD(char_data, sizeof(char), char_size, f);
 	fclose(f); // done reading; data is stored in memory
 
-- 
2.43.0


From 0197ea62c552d058f371cf66c14a79daea4880ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:27 +0000
Subject: [PATCH 118/127] fix: ntr_to_ptc reported success when data did not
 reach the disk

---
 util/ntr_to_ptc.c | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/util/ntr_to_ptc.c b/util/ntr_to_ptc.c
index 15d43d8..e729304 100644
--- a/util/ntr_to_ptc.c
+++ b/util/ntr_to_ptc.c
@@ -85,6 +85,19 @@ int _safe_fwrite(char* src, size_t size, size_t n, FILE* f){
 /// Macro to return on fwrite error
 #define SAFE_FWRITE(src,size,n,f) do { if (FAILURE == _safe_fwrite(src,size,n,f)){ return FAILURE; } } while(0)
 
+/// close written file with error check (data may still be buffered until here)
+int _safe_fclose(FILE* f){
+	if (fclose(f)){
+		printf("Failed to finish writing file\n");
+		perror("File error");
+		return FAILURE;
+	}
+	return SUCCESS;
+}
+
+/// Macro to return on fclose error
+#define SAFE_FCLOSE(f) do { if (FAILURE == _safe_fclose(f)){ return FAILURE; } } while(0)
+
 /// Reads 4 bytes of little-endian data as an unsigned 32-bit int
 uint32_t read_u32(const char* data){
 	return (uint8_t)data[0] | ((uint8_t)data[1] << 8) | ((uint8_t)data[2] << 16) | ((uint8_t)data[3] << 24);
@@ -131,7 +144,7 @@ int extract_nclr(FILE* f, const char* name){
 	SAFE_FWRITE(PTC_COL_TYPE, sizeof(char), strlen(PTC_COL_TYPE), ptc_file);
 	// Write data to file
 	SAFE_FWRITE(pltt_data, sizeof(char), PTC_COL_BANK_SIZE, ptc_file);
-	fclose(ptc_file); // Done writing this file
+	SAFE_FCLOSE(ptc_file); // Done writing this file
 	free(pltt_data); // done with PLTT data
 	return SUCCESS;
 }
@@ -183,7 +196,7 @@ int extract_ncgr(FILE* f, const char* prefix){
 		SAFE_FWRITE(PTC_CHR_TYPE, sizeof(char), strlen(PTC_CHR_TYPE), ptc_file);
 		// Write data to file
 		SAFE_FWRITE(char_data + i * PTC_CHR_BANK_SIZE, sizeof(char), PTC_CHR_BANK_SIZE, ptc_file);
-		fclose(ptc_file); // Done writing this file
+		SAFE_FCLOSE(ptc_file); // Done writing this file
 	}
 	free(char_data); // done with CHAR data
 	return SUCCESS;
-- 
2.43.0


From fb23617dc02397199055d4d97096aaf7e9c2ea3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:30 +0000
Subject: [PATCH 119/127] fix: automatic input of characters above 127

---
 source/main.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/main.c b/source/main.c
index a690f19..f6062f0 100644
--- a/source/main.c
+++ b/source/main.c
@@ -262,13 +262,13 @@ int main(int argc, char** argv){
 			}
 		}
 		
-		char input;
+		int input; // (not char: every byte differs from EOF)
 		if (inputs){
 			//read 128 units per frame
 			bool success = true;
 			while(success){
 				if ((input = getc(inputs)) != EOF){
-					success = set_inkey(&ptc->input, input);
+					success = set_inkey(&ptc->input, to_wide(input));
 					if (!success){
 						ungetc(input, inputs);
 					}
-- 
2.43.0


From 0e54ab7e8e28af678de8d0f71f07a1dcdf2f575f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:32 +0000
Subject: [PATCH 120/127] fix: a touch ends when the mouse leaves the lower
 screen, and tiny windows do not divide by zero

---
 source/main.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/source/main.c b/source/main.c
index f6062f0..5fdc6c2 100644
--- a/source/main.c
+++ b/source/main.c
@@ -295,15 +295,20 @@ int main(int argc, char** argv){
 		
 		sfVector2i pos = sfMouse_getPosition((sfWindow*)window);
 		sfVector2u window_size = sfRenderWindow_getSize(window);
-		if (pos.y >= (int)window_size.y / 2){
-			int tchx = SCREEN_WIDTH * pos.x / window_size.x;
-			int tchy = SCREEN_HEIGHT * pos.y / (window_size.y / 2) - SCREEN_HEIGHT;
+		bool touch = false; // outside of the lower screen nothing is touched
+		int tchx = 0;
+		int tchy = 0;
+		// (the window may be too small to have a lower screen)
+		if (window_size.x >= 1 && window_size.y >= 2 && pos.y >= (int)window_size.y / 2){
+			tchx = SCREEN_WIDTH * pos.x / window_size.x;
+			tchy = SCREEN_HEIGHT * pos.y / (window_size.y / 2) - SCREEN_HEIGHT;
 			if (tchx < SCREEN_WIDTH && tchx >= 0 && tchy < SCREEN_HEIGHT && tchy >= 0){
 	//			iprintf("%d,%d\n", tchx, tchy);
-				set_touch(&ptc->input, sfMouse_isButtonPressed(0), tchx, tchy);
-				press_key(ptc, sfMouse_isButtonPressed(0), tchx, tchy);
+				touch = sfMouse_isButtonPressed(0);
 			}
 		}
+		set_touch(&ptc->input, touch, tchx, tchy);
+		press_key(ptc, touch, tchx, tchy);
 
 		step_sprites(&ptc->sprites);
 		step_background(&ptc->background);
-- 
2.43.0


From c43470f3c43be38f207773cdebbf74f0687a8cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:20 +0000
Subject: [PATCH 121/127] fix: FOR whose TO and STEP expressions take 256 or
 more bytes of bytecode

---
 source/interpreter/flow.c  | 12 +++++-------
 source/interpreter/stack.h |  3 ++-
 2 files changed, 7 insertions(+), 8 deletions(-)

diff --git a/source/interpreter/flow.c b/source/interpreter/flow.c
index 1628a1a..08a3068 100644
--- a/source/interpreter/flow.c
+++ b/source/interpreter/flow.c
@@ -36,9 +36,7 @@ void cmd_for(struct ptc* p){
 	if (p->calls.stack_i == CALL_STACK_SIZE-1){
 		ERROR(ERR_OUT_OF_MEMORY);
 	}
-	// Note: instruction index is limited to [0,MAX_SOURCE_SIZE) currently
-	// Line size (and distance to BC_BEGIN_LOOP) is in [0,100) and usually small
-	// Store offset as part of index here, and save the searching on every NEXT command
+	// Store size of expression here, and save the searching on every NEXT command
 	idx to_start = index + 2;
 	idx to_size = bc_scan(p->exec.code, to_start, BC_BEGIN_LOOP);
 	if (to_size == BC_SCAN_NOT_FOUND) {
@@ -46,7 +44,8 @@ void cmd_for(struct ptc* p){
 	}
 
 	// stores beginning of TO [STEP] expression and size of expression
-	p->calls.entry[p->calls.stack_i].address = to_start | ((to_size - to_start) << 24);
+	p->calls.entry[p->calls.stack_i].address = to_start;
+	p->calls.entry[p->calls.stack_i].size = to_size - to_start;
 	p->calls.entry[p->calls.stack_i].var = e->value.ptr;
 	
 	p->calls.stack_i++;
@@ -98,9 +97,8 @@ void cmd_next(struct ptc* p){
 	}
 	// this is the FOR call we are processing.
 	struct call_entry* c = &p->calls.entry[stack_i];
-	u32 addr = c->address; //points to just after FOR
-	idx to_start = addr & 0x00ffffff;
-	idx to_size = addr >> 24;
+	idx to_start = c->address; //points to just after FOR
+	idx to_size = c->size;
 
 	struct bytecode code = p->exec.code;
 	struct runner temp = p->exec; // copy code state (not stack)
diff --git a/source/interpreter/stack.h b/source/interpreter/stack.h
index 09bae2a..6aca86e 100644
--- a/source/interpreter/stack.h
+++ b/source/interpreter/stack.h
@@ -120,7 +120,8 @@ struct call_stack {
 	/// * FOR - Loop info index + length, variable pointer
 	struct call_entry {
 		enum call_type type; // FOR or GOSUB
-		u32 address; // combined instruction index and expression size for FOR
+		u32 address; // instruction index (start of the TO expression for FOR)
+		u32 size; // size of the TO expression for FOR
 //		uint_fast8_t var_type;
 		void* var; // fixp* or struct string**
 	} entry[CALL_STACK_SIZE];
-- 
2.43.0


From bfa286dfd2dfe82023c47ccb55003d3c98973753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:43:03 +0000
Subject: [PATCH 122/127] fix: RESTORE as the first statement of an IF branch
 jumped to its label

---
 source/interpreter/flow.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/interpreter/flow.c b/source/interpreter/flow.c
index 08a3068..6b4c280 100644
--- a/source/interpreter/flow.c
+++ b/source/interpreter/flow.c
@@ -178,13 +178,13 @@ void cmd_if(struct ptc* p){
 		jump_ok = p->exec.code.data[index+1] == CMD_ELSE;
 		index += 2; // move to instruction past ELSE or ENDIF
 	}
-	// If there's a label AND it's not followed by a GOSUB
+	// If there's a label AND it's not the argument of a command
 	char* label = (char*)&p->exec.code.data[index];
 	if (jump_ok && label[0] == BC_LABEL_STRING){
 		int len = label[1];
 		int instr = label[2+len+(len & 1)];
 		int cmd = label[2+len+(len & 1)+1];
-		if (instr == BC_COMMAND && (cmd == CMD_GOSUB || cmd == CMD_GOTO)){
+		if (instr == BC_COMMAND && (cmd == CMD_GOSUB || cmd == CMD_GOTO || cmd == CMD_RESTORE)){
 			// Don't jump because it is handled by next instruction
 		} else {
 			// GOTO label
-- 
2.43.0


From 077f29bd778030aab250437c1702cec8f897baa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:43:06 +0000
Subject: [PATCH 123/127] fix: statements after ELSE were compiled as part of a
 DIM before it

---
 source/interpreter/tokens.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/interpreter/tokens.c b/source/interpreter/tokens.c
index ef8b0d6..344743f 100644
--- a/source/interpreter/tokens.c
+++ b/source/interpreter/tokens.c
@@ -1251,6 +1251,7 @@ int tok_eval(struct tokenizer* state){
 					// separator between TRUE/FALSE paths of the IF.
 					tok_eval_clean_stack(&e, 0);
 					e.result[e.result_i++] = state->tokens[i];
+					is_dim = false;
 					is_sort = false;
 					continue;
 				} else if (state->tokens[i].cmd == CMD_SORT || state->tokens[i].cmd == CMD_RSORT){
-- 
2.43.0


From 4a598dca1a069a81b8c0c431ad200d6b49ab1c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:43:22 +0000
Subject: [PATCH 124/127] fix: a FOR just before ELSE put the start of its loop
 into the ELSE branch

---
 source/interpreter/tokens.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/interpreter/tokens.c b/source/interpreter/tokens.c
index 344743f..8fa370e 100644
--- a/source/interpreter/tokens.c
+++ b/source/interpreter/tokens.c
@@ -1250,6 +1250,10 @@ int tok_eval(struct tokenizer* state){
 					// similar to commas within a command, it is used as a
 					// separator between TRUE/FALSE paths of the IF.
 					tok_eval_clean_stack(&e, 0);
+					if (is_for){
+						e.result[e.result_i++] = (struct token){.type=loop_begin, .ofs=0, .len=1, .prio=0};
+						is_for = false;
+					}
 					e.result[e.result_i++] = state->tokens[i];
 					is_dim = false;
 					is_sort = false;
-- 
2.43.0


From 4774bcb3dcfe5e1e58e20eb1a4b172f5e8bd5afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:45:58 +0000
Subject: [PATCH 125/127] fix: a PRINT item directly after an expression, array
 element or function was taken into it

---
 source/interpreter/tokens.c | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/source/interpreter/tokens.c b/source/interpreter/tokens.c
index 8fa370e..da9290f 100644
--- a/source/interpreter/tokens.c
+++ b/source/interpreter/tokens.c
@@ -1134,6 +1134,31 @@ void tok_eval_clean_stack(struct eval* e, u16 prio){
 	}
 }
 
+/// Checks for an item of PRINT that follows the item before it without a separator.
+static bool is_next_item(const struct token* prev, const struct token* t){
+	bool close = prev->type == arg_count || (prev->type == operation &&
+		(prev->cmd == OP_CLOSE_PAREN || prev->cmd == OP_CLOSE_BRACKET));
+	bool value = prev->type == number || prev->type == base_number ||
+		prev->type == string || prev->type == sysvar || prev->type == label_string;
+	
+	switch (t->type){
+		case number:
+		case base_number:
+		case string:
+		case name:
+		case sysvar:
+		case function:
+		case label:
+			return close || value || prev->type == name;
+		case operation:
+			if (t->cmd == OP_OPEN_PAREN) return close || value; // else an array
+			return (t->cmd == OP_NEGATE || t->cmd == OP_NOT || t->cmd == OP_LOGICAL_NOT) &&
+				(close || value || prev->type == name);
+		default:
+			return false;
+	}
+}
+
 // once again based on
 // https://en.wikipedia.org/wiki/Shunting_yard_algorithm
 // This one is infinitely less bad than than the PTC-EmkII attempt. :)
@@ -1164,6 +1189,11 @@ int tok_eval(struct tokenizer* state){
 		iprintf("[tok_eval]");
 		print_token(state, state->tokens[i]);
 		
+		if (!implicit_commas && !e.argc_i && is_next_item(&state->tokens[i-1], &state->tokens[i])){
+			// complete the previous item first, as a semicolon would
+			tok_eval_clean_stack(&e, 2);
+		}
+		
 		if (state->tokens[i].type == operation && prio % 8 == 0) {
 			// operation of prio 0: ( ) [ ] =
 			if (op == OP_ASSIGN){
-- 
2.43.0


From d2004b7dfcc57beefc33278ee49d48f1eb645ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:16:35 +0000
Subject: [PATCH 126/127] fix: a number prefix without digits was read as 0
 together with the character after it

---
 source/interpreter/tokens.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/interpreter/tokens.c b/source/interpreter/tokens.c
index da9290f..adbe72c 100644
--- a/source/interpreter/tokens.c
+++ b/source/interpreter/tokens.c
@@ -1667,7 +1667,8 @@ int tok_base_number(struct tokenizer* state){
 		return ERR_SYNTAX;
 	}
 	state->cursor += 2;
-	if (src_char(state, state->cursor) == '\r'){
+	int digit = digit_value(to_wide(src_char(state, state->cursor)));
+	if (digit < 0 || digit >= (base == 'H' ? 16 : 2)){
 		return ERR_SYNTAX; // no digits
 	}
 	do {
-- 
2.43.0


From a1e1fe567084e36ca118a8a89ed65f1ec0ed42fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:16:38 +0000
Subject: [PATCH 127/127] fix: an incomplete or too large editor program was
 taken as loaded

---
 source/interpreter/program.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/source/interpreter/program.c b/source/interpreter/program.c
index 5e2241e..7932856 100644
--- a/source/interpreter/program.c
+++ b/source/interpreter/program.c
@@ -171,9 +171,12 @@ bool load_prg_internal(struct program* p, const char* filename, bool alloc){
 		return false;
 	}
 	
-	p->size = h.prg_size;
 	if (alloc){
 		p->data = malloc_log("prg_load", h.prg_size);
+	} else if (h.prg_size > MAX_SOURCE_SIZE){
+		iprintf("Program is too large!\n");
+		fclose(f);
+		return false;
 	}
 	r = fread(p->data, sizeof(char), h.prg_size, f);
 	if (r < h.prg_size || ferror(f)){
@@ -185,6 +188,7 @@ bool load_prg_internal(struct program* p, const char* filename, bool alloc){
 		return false;
 	}
 	// file read success: close file
+	p->size = h.prg_size;
 	fclose(f);
 	return true;
 
-- 
2.43.0

