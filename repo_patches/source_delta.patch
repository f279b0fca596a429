From 575004333511011e2cfbf7add45bd7ae7b108bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:41 +0000
Subject: [PATCH 01/94] fix: bsdconv_unpack writes one element past its phase
 offset array

---
 src/libbsdconv.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libbsdconv.c b/src/libbsdconv.c
index 4dab01c..b6b8bfb 100644
--- a/src/libbsdconv.c
+++ b/src/libbsdconv.c
@@ -315,7 +315,7 @@ struct bsdconv_instance *bsdconv_unpack(const char *_conversion){
 		if(*t==':' || *t=='|')++i;
 	}
 	ins->phasen=i;
-	char *phase_off[i+1];
+	char *phase_off[i+2];
 
 	ins->phase=malloc(sizeof(struct bsdconv_phase) * (i+1));
 
-- 
2.43.0


From 5f3fffb79d66e741bd3ef2b224c17c934c39551b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:50 +0000
Subject: [PATCH 02/94] fix: bsdconv_hash_get returns the wrong value and
 bsdconv_hash_del unlinks the wrong entry

---
 src/libbsdconv_hash.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libbsdconv_hash.c b/src/libbsdconv_hash.c
index b9d0a8d..d50371d 100644
--- a/src/libbsdconv_hash.c
+++ b/src/libbsdconv_hash.c
@@ -34,7 +34,7 @@ void *bsdconv_hash_get(struct bsdconv_instance *ins, const char *key){
 			p->ptr=ins->hash->ptr;
 			ins->hash->key=tk;
 			ins->hash->ptr=tp;
-			return p->ptr;
+			return tp;
 		}
 		p=p->next;
 	}
@@ -70,7 +70,7 @@ void bsdconv_hash_del(struct bsdconv_instance *ins, const char *key){
 			free(p);
 			return;
 		}
-		p=p->next;
 		q=&p->next;
+		p=p->next;
 	}
 }
-- 
2.43.0


From 36796432c287243094d7bcb3e7fa94b4859d6390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:50 +0000
Subject: [PATCH 03/94] fix: str2datum and str2data overflow their buffer on an
 odd number of hex digits

---
 src/libbsdconv_util.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libbsdconv_util.c b/src/libbsdconv_util.c
index 94e3bca..09dbac3 100644
--- a/src/libbsdconv_util.c
+++ b/src/libbsdconv_util.c
@@ -26,7 +26,7 @@ int str2datum(const char *s, struct data_rt *d){
 	d->len=0;
 	if(!s)
 		return EINVAL;
-	d->data=malloc(strlen(s)/2);
+	d->data=malloc((strlen(s)+1)/2);
 	d->flags=F_FREE;
 	d->next=NULL;
 	char f=0;
@@ -79,7 +79,7 @@ struct data_rt * str2data(const char *_s, int *r, struct bsdconv_instance *ins){
 		t->next=NULL;
 		t->len=0;
 		t->flags=F_FREE;
-		t->data=malloc(strlen(k)/2);
+		t->data=malloc((strlen(k)+1)/2);
 		f=0;
 		while(*k){
 			if(hex[(unsigned char) *k]<0){
-- 
2.43.0


From c0b3ad3e17b3e9888dc1ce9611181f512caf6929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:50 +0000
Subject: [PATCH 04/94] fix: bsdconv loses pending input when it was handed
 over as a list

---
 src/libbsdconv.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/libbsdconv.c b/src/libbsdconv.c
index b6b8bfb..65c18d6 100644
--- a/src/libbsdconv.c
+++ b/src/libbsdconv.c
@@ -607,6 +607,9 @@ void bsdconv(struct bsdconv_instance *ins){
 		DATA_MALLOC(ins, ins->phase[0].data_tail->next);
 		ins->phase[0].data_tail=ins->phase[0].data_tail->next;
 		*(ins->phase[0].data_tail)=ins->input;
+		while(ins->phase[0].data_tail->next){
+			ins->phase[0].data_tail=ins->phase[0].data_tail->next;
+		}
 		ins->input.data=NULL;
 		ins->input.len=0;
 		ins->input.flags=0;
-- 
2.43.0


From 7405fe713a737a935dcff4503a12ed902ee73fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:51 +0000
Subject: [PATCH 05/94] fix: a truncated sequence at flush leaves its first
 bytes in the decoder, which garbles the bytes decoded next

---
 src/libbsdconv.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/libbsdconv.c b/src/libbsdconv.c
index 65c18d6..af4ea96 100644
--- a/src/libbsdconv.c
+++ b/src/libbsdconv.c
@@ -1007,7 +1007,11 @@ void bsdconv(struct bsdconv_instance *ins){
 				this_phase=THIS_PHASE(ins);
 				this_codec=THIS_CODEC(ins);
 				switch(this_phase->type){
-					case FROM:	goto from_deadend;
+					case FROM:
+						/* truncated sequence: drop the part the codec is holding */
+						if(!(this_phase->flags & F_MATCH) && this_codec->cbinit)
+							this_codec->cbinit(ins);
+						goto from_deadend;
 					case INTER:	goto inter_deadend;
 					case TO:	goto to_deadend;
 				}
-- 
2.43.0


From fad5883f65646a85df08ccff896c6e3192bf73c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:51 +0000
Subject: [PATCH 06/94] fix: from/CP950-UDA keeps a pending lead byte across
 bsdconv_init

---
 modules/from/CP950-UDA.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/modules/from/CP950-UDA.c b/modules/from/CP950-UDA.c
index fcc4f89..e25351c 100644
--- a/modules/from/CP950-UDA.c
+++ b/modules/from/CP950-UDA.c
@@ -17,6 +17,11 @@ int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
 	return 0;
 }
 
+void cbinit(struct bsdconv_instance *ins){
+	struct my_s *r = THIS_CODEC(ins)->priv;
+	r->h = 0;
+}
+
 void cbdestroy(struct bsdconv_instance *ins){
 	struct my_s *r = THIS_CODEC(ins)->priv;
 	free(r);
-- 
2.43.0


From c5e89f5a91cbcd4d3e2db6fbd57da0767486412c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:51 +0000
Subject: [PATCH 07/94] fix: from/CP950-UDA accepts bytes that are no Big5
 trail bytes

---
 modules/from/CP950-UDA.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/from/CP950-UDA.c b/modules/from/CP950-UDA.c
index e25351c..b0a3a2c 100644
--- a/modules/from/CP950-UDA.c
+++ b/modules/from/CP950-UDA.c
@@ -64,7 +64,7 @@ void cbconv(struct bsdconv_instance *ins){
 		}
 	}else{
 		uint32_t b = (r->h<<8)|d;
-		if(
+		if(((d>=0x40 && d<=0x7E) || (d>=0xA1 && d<=0xFE)) && (
 			(b>=0xFA40 && b<=0xFEFE)
 			||
 			(b>=0x8E40 && b<=0xA0FE)
@@ -72,7 +72,7 @@ void cbconv(struct bsdconv_instance *ins){
 			(b>=0x8140 && b<=0x8DFE)
 			||
 			(b>=0xC6A1 && b<=0xC8FE)
-		){
+		)){
 			uint32_t u = r->x + (157 * (r->h - r->y)) + (d<0x80?d-0x40:d-0x62);
 			unsigned char *c;
 			DATA_MALLOC(ins, this_phase->data_tail->next);
-- 
2.43.0


From 8f2b4e856ff7b0b4377e666a1d8eb4eef48baca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:36 +0000
Subject: [PATCH 08/94] fix: from/_JIS keeps its mode across bsdconv_init and
 never leaves a malformed escape sequence

---
 modules/from/_JIS.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/modules/from/_JIS.c b/modules/from/_JIS.c
index 67ebb02..4c30ba2 100644
--- a/modules/from/_JIS.c
+++ b/modules/from/_JIS.c
@@ -44,6 +44,12 @@ int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
 	return 0;
 }
 
+void cbinit(struct bsdconv_instance *ins){
+	struct my_s *r = THIS_CODEC(ins)->priv;
+	r->mode = MODE_ASCII;
+	r->state = 0;
+}
+
 void cbdestroy(struct bsdconv_instance *ins){
 	struct my_s *r = THIS_CODEC(ins)->priv;
 	unloadcodec(&r->jis0201);
@@ -106,6 +112,7 @@ void cbconv(struct bsdconv_instance *ins){
 						this_phase->state.status = CONTINUE;
 						return;
 					default:
+						r->state = 0;
 						this_phase->state.status = DEADEND;
 						return;
 				}
@@ -125,6 +132,7 @@ void cbconv(struct bsdconv_instance *ins){
 						this_phase->state.status = NEXTPHASE;
 						return;
 					default:
+						r->state = 0;
 						this_phase->state.status = DEADEND;
 						return;
 				}
@@ -153,6 +161,7 @@ void cbconv(struct bsdconv_instance *ins){
 						this_phase->state.status = NEXTPHASE;
 						return;
 					default:
+						r->state = 0;
 						this_phase->state.status = DEADEND;
 						return;
 				}
@@ -166,6 +175,7 @@ void cbconv(struct bsdconv_instance *ins){
 						this_phase->state.status = NEXTPHASE;
 						break;
 					default:
+						r->state = 0;
 						this_phase->state.status = DEADEND;
 						return;
 				}
-- 
2.43.0


From af3c045505c29d43e4b6d4ccfa86e4a886d7b16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:36 +0000
Subject: [PATCH 09/94] fix: from/BSDCONV frees its buffer twice, or while its
 output is still in use, when an instance is reused

---
 modules/from/BSDCONV.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/modules/from/BSDCONV.c b/modules/from/BSDCONV.c
index efc8c03..d6f6440 100644
--- a/modules/from/BSDCONV.c
+++ b/modules/from/BSDCONV.c
@@ -27,6 +27,7 @@ void cbinit(struct bsdconv_instance *ins){
 	t->data.len=0;
 	if(t->data.data)
 		free(t->data.data);
+	t->data.data=NULL;
 	t->data.next=NULL;
 	t->flag=F_CLEAR;
 }
@@ -42,7 +43,14 @@ void cbdestroy(struct bsdconv_instance *ins){
 void cbflush(struct bsdconv_instance *ins){
 	struct bsdconv_phase *this_phase=THIS_PHASE(ins);
 	struct my_s *t=THIS_CODEC(ins)->priv;
-	LISTCPY(ins, this_phase->data_tail, &t->data);
+	DATA_MALLOC(ins, this_phase->data_tail->next);
+	this_phase->data_tail=this_phase->data_tail->next;
+	this_phase->data_tail->next=NULL;
+	this_phase->data_tail->data=t->data.data;
+	this_phase->data_tail->len=t->data.len;
+	this_phase->data_tail->flags=F_FREE;
+	t->data.data=NULL;
+	t->flag=F_CLEAR;
 }
 
 void cbconv(struct bsdconv_instance *ins){
-- 
2.43.0


From 1d1ebcf51193a4ebd6d783439968b03a19187483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:36 +0000
Subject: [PATCH 10/94] fix: inter/_NFC releases its pending starter twice when
 an instance is reused

---
 modules/inter/_NFC.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modules/inter/_NFC.c b/modules/inter/_NFC.c
index 8d5370d..313d379 100644
--- a/modules/inter/_NFC.c
+++ b/modules/inter/_NFC.c
@@ -29,6 +29,7 @@ void cbinit(struct bsdconv_instance *ins){
 	struct data_rt *t;
 	if(r->starter){
 		DATUM_FREE(ins, r->starter);
+		r->starter=NULL;
 	}
 	while(r->pending_head->next){
 		t=r->pending_head->next->next;
-- 
2.43.0


From 24b2d2b37d96171d5ff2488c500e52d95d6ee750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:36 +0000
Subject: [PATCH 11/94] fix: inter/BIG5-DEFRAG leaks a node per character and
 swallows a trailing lead byte

---
 modules/inter/BIG5-DEFRAG.c | 38 +++++++++++++++++++++++++++++++++----
 1 file changed, 34 insertions(+), 4 deletions(-)

diff --git a/modules/inter/BIG5-DEFRAG.c b/modules/inter/BIG5-DEFRAG.c
index 90c4454..4a4834f 100644
--- a/modules/inter/BIG5-DEFRAG.c
+++ b/modules/inter/BIG5-DEFRAG.c
@@ -8,22 +8,53 @@ struct my_s{
 };
 
 int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
-	THIS_CODEC(ins)->priv=malloc(sizeof(struct my_s));
+	struct my_s *r=THIS_CODEC(ins)->priv=malloc(sizeof(struct my_s));
+	r->p=NULL;
+	r->q=NULL;
 	return 0;
 }
 
+static void clear(struct bsdconv_instance *ins, struct my_s *r){
+	struct data_rt *t;
+	if(r->p){
+		DATUM_FREE(ins, r->p);
+		r->p=NULL;
+	}
+	while(r->q){
+		t=r->q->next;
+		DATUM_FREE(ins, r->q);
+		r->q=t;
+	}
+}
+
 void cbinit(struct bsdconv_instance *ins){
 	struct my_s *r=THIS_CODEC(ins)->priv;
-	r->p=NULL;
-	r->q=NULL;
+	clear(ins, r);
 	r->r=&(r->q);
 	r->f=0;
 }
 
 void cbdestroy(struct bsdconv_instance *ins){
+	clear(ins, THIS_CODEC(ins)->priv);
 	free(THIS_CODEC(ins)->priv);
 }
 
+void cbflush(struct bsdconv_instance *ins){
+	struct bsdconv_phase *this_phase=THIS_PHASE(ins);
+	struct my_s *r=THIS_CODEC(ins)->priv;
+
+	if(r->p){
+		this_phase->data_tail->next=r->p;
+		r->p->next=r->q;
+		while(this_phase->data_tail->next){
+			this_phase->data_tail=this_phase->data_tail->next;
+		}
+	}
+	r->p=r->q=NULL;
+	r->r=&(r->q);
+	r->f=0;
+}
+
 void cbconv(struct bsdconv_instance *ins){
 	unsigned char *data;
 	struct bsdconv_phase *this_phase=THIS_PHASE(ins);
@@ -37,7 +68,6 @@ void cbconv(struct bsdconv_instance *ins){
 			this_phase->state.status=SUBMATCH;
 			return;
 		}else{
-			DATA_MALLOC(ins, this_phase->data_tail->next);
 			this_phase->data_tail->next=dup_data_rt(ins, this_phase->curr);
 			this_phase->data_tail=this_phase->data_tail->next;
 			this_phase->data_tail->next=NULL;
-- 
2.43.0


From b8cf2e8d4074cd943112fb208f8695bf005cedc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:36 +0000
Subject: [PATCH 12/94] fix: from/ESCAPE overruns its buffer on u0000 and
 accepts octal escapes above 377

---
 modules/from/ESCAPE.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/from/ESCAPE.c b/modules/from/ESCAPE.c
index fa5b8d2..7a39ad9 100644
--- a/modules/from/ESCAPE.c
+++ b/modules/from/ESCAPE.c
@@ -126,7 +126,7 @@ void cbconv(struct bsdconv_instance *ins){
 					i=t->buf[0];
 					i*=8;
 					i+=oct[(unsigned char)d];
-					if(i>377)
+					if(i>0377)
 						DEADEND();
 					t->buf[0]=i;
 					DATA_MALLOC(ins, this_phase->data_tail->next);
@@ -177,7 +177,7 @@ void cbconv(struct bsdconv_instance *ins){
 					i=0;
 					t->buf[1]*=16;
 					t->buf[1]+=hex[(unsigned char)d];
-					while(t->buf[i]==0)++i;
+					while(i<1 && t->buf[i]==0)++i;
 					DATA_MALLOC(ins, this_phase->data_tail->next);
 					this_phase->data_tail=this_phase->data_tail->next;
 					this_phase->data_tail->next=NULL;
-- 
2.43.0


From 298d4bc1f5b6825c2bfb06030433e7693e1fc5e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:36 +0000
Subject: [PATCH 13/94] fix: UTF-16, UTF-32 and numeric entity decoders turn
 NUL into an empty character

---
 modules/from/ASCII-NUMERIC-HTML-ENTITY.c | 2 +-
 modules/from/UTF-16BE.c                  | 2 +-
 modules/from/UTF-16LE.c                  | 2 +-
 modules/from/UTF-32BE.c                  | 2 +-
 modules/from/UTF-32LE.c                  | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/modules/from/ASCII-NUMERIC-HTML-ENTITY.c b/modules/from/ASCII-NUMERIC-HTML-ENTITY.c
index b4527b0..f4d5333 100644
--- a/modules/from/ASCII-NUMERIC-HTML-ENTITY.c
+++ b/modules/from/ASCII-NUMERIC-HTML-ENTITY.c
@@ -50,7 +50,7 @@ void cbconv(struct bsdconv_instance *ins){
 			//put data
 			t->buf.i=htobe32(t->buf.i);
 			for(i=0;i<4;i++){
-				if(t->buf.c[i] || j)
+				if(t->buf.c[i] || j || i==3 /* keep NUL as 0100 */)
 					ob[j++]=t->buf.c[i];
 			}
 			DATA_MALLOC(ins, this_phase->data_tail->next);
diff --git a/modules/from/UTF-16BE.c b/modules/from/UTF-16BE.c
index 6e77e22..332943b 100644
--- a/modules/from/UTF-16BE.c
+++ b/modules/from/UTF-16BE.c
@@ -47,7 +47,7 @@ void cbconv(struct bsdconv_instance *ins){
 					continue;
 				}else{
 					t->status=0;
-					for(i=0;i<2;++i){
+					for(i=0;i<1 /* keep NUL as 0100 */;++i){
 						if(t->buf[i]) break;
 					}
 					l=(2-i)+1;
diff --git a/modules/from/UTF-16LE.c b/modules/from/UTF-16LE.c
index 7bef7da..a158227 100644
--- a/modules/from/UTF-16LE.c
+++ b/modules/from/UTF-16LE.c
@@ -46,7 +46,7 @@ void cbconv(struct bsdconv_instance *ins){
 					continue;
 				}else{
 					t->status=0;
-					for(i=0;i<2;++i){
+					for(i=0;i<1 /* keep NUL as 0100 */;++i){
 						if(t->buf[i]) break;
 					}
 					l=(2-i)+1;
diff --git a/modules/from/UTF-32BE.c b/modules/from/UTF-32BE.c
index 3c30195..0bcbd7f 100644
--- a/modules/from/UTF-32BE.c
+++ b/modules/from/UTF-32BE.c
@@ -51,7 +51,7 @@ void cbconv(struct bsdconv_instance *ins){
 			case 3:
 				t->buf[3]=d;
 				t->status=0;
-				for(i=0;i<4;++i){
+				for(i=0;i<3 /* keep NUL as 0100 */;++i){
 					if(t->buf[i]) break;
 				}
 				l=(4-i)+1;
diff --git a/modules/from/UTF-32LE.c b/modules/from/UTF-32LE.c
index b2758ba..ef1b58e 100644
--- a/modules/from/UTF-32LE.c
+++ b/modules/from/UTF-32LE.c
@@ -51,7 +51,7 @@ void cbconv(struct bsdconv_instance *ins){
 			case 3:
 				t->buf[0]=d;
 				t->status=0;
-				for(i=0;i<4;++i){
+				for(i=0;i<3 /* keep NUL as 0100 */;++i){
 					if(t->buf[i]) break;
 				}
 				l=(4-i)+1;
-- 
2.43.0


From 5f7652d057c94212b60ddb1cd77167eff9f9c04e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:36 +0000
Subject: [PATCH 14/94] fix: from/UTF-16BE leaves the flags of supplementary
 characters uninitialised

---
 modules/from/UTF-16BE.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modules/from/UTF-16BE.c b/modules/from/UTF-16BE.c
index 332943b..919af30 100644
--- a/modules/from/UTF-16BE.c
+++ b/modules/from/UTF-16BE.c
@@ -87,6 +87,7 @@ void cbconv(struct bsdconv_instance *ins){
 					this_phase->data_tail=this_phase->data_tail->next;
 					this_phase->data_tail->next=NULL;
 					this_phase->data_tail->len=l;
+					this_phase->data_tail->flags=F_FREE;
 					this_phase->data_tail->data=malloc(l);
 					CP(this_phase->data_tail->data)[0]=0x01;
 					memcpy(CP(this_phase->data_tail->data)+1, &buf[i], l-1);
-- 
2.43.0


From bb23b88c878b662cb9838bab9eff013d641a8810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:36 +0000
Subject: [PATCH 15/94] fix: from/_UTF-8#CESU decodes surrogate pairs of planes
 2 and up to the wrong character

---
 modules/from/_UTF-8.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/from/_UTF-8.c b/modules/from/_UTF-8.c
index 884ee9a..70ca86c 100644
--- a/modules/from/_UTF-8.c
+++ b/modules/from/_UTF-8.c
@@ -90,7 +90,7 @@ void cbdestroy(struct bsdconv_instance *ins){
 		if(t->cesu){	\
 			if(t->lead_surrogate.ucs4){	\
 				uint32_t cp = 0x10000;	\
-				cp |= ((be32toh(t->lead_surrogate.ucs4) - 0xD800) << 10) & bb11111111110000000000;	\
+				cp += ((be32toh(t->lead_surrogate.ucs4) - 0xD800) << 10) & bb11111111110000000000;	\
 				cp |= (ucs - 0xDC00) & bb1111111111;	\
 				t->ucs.ucs4 = htobe32(cp);	\
 				PASS(t->ucs);	\
-- 
2.43.0


From 7af24c6866377576ba5969d0a0dba155840f542d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:53 +0000
Subject: [PATCH 16/94] fix: from/ASCII-NUMERIC-HTML-ENTITY accepts entities
 without digits and wraps around on large numbers

---
 modules/from/ASCII-NUMERIC-HTML-ENTITY.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modules/from/ASCII-NUMERIC-HTML-ENTITY.c b/modules/from/ASCII-NUMERIC-HTML-ENTITY.c
index f4d5333..6a2449d 100644
--- a/modules/from/ASCII-NUMERIC-HTML-ENTITY.c
+++ b/modules/from/ASCII-NUMERIC-HTML-ENTITY.c
@@ -46,7 +46,7 @@ void cbconv(struct bsdconv_instance *ins){
 
 	for(;this_phase->i<this_phase->curr->len;this_phase->i+=1){
 		d=CP(this_phase->curr->data)[this_phase->i];
-		if(d==';' && t->status){
+		if(d==';' && t->status && t->status!=1000 /* x without digits */){
 			//put data
 			t->buf.i=htobe32(t->buf.i);
 			for(i=0;i<4;i++){
@@ -70,6 +70,7 @@ void cbconv(struct bsdconv_instance *ins){
 			if(t->tbl[(unsigned char)d]==-1) DEADEND();
 			t->buf.i*=t->b;
 			t->buf.i+=t->tbl[(unsigned char)d];
+			if(t->buf.i>0x10FFFF) DEADEND();
 		}else{
 			if(d=='x'){
 				t->status=1000;
-- 
2.43.0


From 524a2c50d40f0f64f8dbfa206291e9c7a0efca4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:53 +0000
Subject: [PATCH 17/94] fix: UTF-16, UTF-32 and GB18030 encoders overflow on
 characters longer than they can hold

---
 modules/to/UTF-16BE.c | 4 ++++
 modules/to/UTF-16LE.c | 4 ++++
 modules/to/UTF-32BE.c | 5 +++++
 modules/to/UTF-32LE.c | 5 +++++
 modules/to/_GB18030.c | 5 +++++
 5 files changed, 23 insertions(+)

diff --git a/modules/to/UTF-16BE.c b/modules/to/UTF-16BE.c
index 8722088..8586fae 100644
--- a/modules/to/UTF-16BE.c
+++ b/modules/to/UTF-16BE.c
@@ -10,6 +10,10 @@ void cbconv(struct bsdconv_instance *ins){
 	data=this_phase->curr->data;
 
 	data+=1;
+	if(this_phase->curr->len > 4 || (this_phase->curr->len == 4 && UCP(data)[0] > 0x10)){
+		this_phase->state.status=DEADEND;
+		return;
+	}
 	if(this_phase->curr->len > 3){
 		this_phase->state.status=NEXTPHASE;
 
diff --git a/modules/to/UTF-16LE.c b/modules/to/UTF-16LE.c
index 09f3e17..bccc95a 100644
--- a/modules/to/UTF-16LE.c
+++ b/modules/to/UTF-16LE.c
@@ -12,6 +12,10 @@ void cbconv(struct bsdconv_instance *ins){
 	data=this_phase->curr->data;
 
 	data+=1;
+	if(this_phase->curr->len > 4 || (this_phase->curr->len == 4 && UCP(data)[0] > 0x10)){
+		this_phase->state.status=DEADEND;
+		return;
+	}
 	if(this_phase->curr->len > 3){
 		this_phase->state.status=NEXTPHASE;
 
diff --git a/modules/to/UTF-32BE.c b/modules/to/UTF-32BE.c
index 200a14d..f213b1d 100644
--- a/modules/to/UTF-32BE.c
+++ b/modules/to/UTF-32BE.c
@@ -9,6 +9,11 @@ void cbconv(struct bsdconv_instance *ins){
 	struct bsdconv_phase *this_phase=THIS_PHASE(ins);
 	data=this_phase->curr->data;
 
+	if(this_phase->curr->len > 5){
+		this_phase->state.status=DEADEND;
+		return;
+	}
+
 	this_phase->state.status=NEXTPHASE;
 	data+=1;
 	len=this_phase->curr->len-1;
diff --git a/modules/to/UTF-32LE.c b/modules/to/UTF-32LE.c
index ab058ba..b894fac 100644
--- a/modules/to/UTF-32LE.c
+++ b/modules/to/UTF-32LE.c
@@ -11,6 +11,11 @@ void cbconv(struct bsdconv_instance *ins){
 	struct bsdconv_phase *this_phase=THIS_PHASE(ins);
 	data=this_phase->curr->data;
 
+	if(this_phase->curr->len > 5){
+		this_phase->state.status=DEADEND;
+		return;
+	}
+
 	this_phase->state.status=NEXTPHASE;
 	data+=1;
 	len=this_phase->curr->len-1;
diff --git a/modules/to/_GB18030.c b/modules/to/_GB18030.c
index 457d69b..9c069e2 100644
--- a/modules/to/_GB18030.c
+++ b/modules/to/_GB18030.c
@@ -42,6 +42,11 @@ void cbconv(struct bsdconv_instance *ins){
 	data+=1;
 	len=this_phase->curr->len-1;
 
+	if(len>4){
+		this_phase->state.status=DEADEND;
+		return;
+	}
+
 	codepoint.num=0;
 	for(i=0;(len-i)>0;++i){
 		codepoint.byte[3-i]=data[len-i-1];
-- 
2.43.0


From 50d5eaccfe3c9c9aacee15cab8d5f86d2681900c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:18 +0000
Subject: [PATCH 18/94] fix: to/IBM-93x encodes unmapped characters as the
 character their first byte stands for

---
 modules/to/EBCDIC.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/modules/to/EBCDIC.c b/modules/to/EBCDIC.c
index afb2170..859b7b2 100644
--- a/modules/to/EBCDIC.c
+++ b/modules/to/EBCDIC.c
@@ -49,6 +49,19 @@ void cbconv(struct bsdconv_instance *ins){
 	struct my_s *t=THIS_CODEC(ins)->priv;
 	struct data_st data;
 	struct data_rt *data_ptr;
+	struct state_rt state=read_state(THIS_CODEC(ins), 0);
+	offset_t offset;
+	unsigned int i;
+
+	/* the engine stays on a subroutine entry when the datum goes on past it: only the whole datum counts */
+	for(i=0;i<this_phase->curr->len;i+=1){
+		offset=get_offset(THIS_CODEC(ins), &state, UCP(this_phase->curr->data)[i]);
+		if(offset==0){
+			this_phase->state.status=DEADEND;
+			return;
+		}
+		state=read_state(THIS_CODEC(ins), offset);
+	}
 
 	memcpy(&data, (char *)(this_phase->codec[this_phase->index].data_z+(uintptr_t)this_phase->state.data), sizeof(struct data_st));
 
-- 
2.43.0


From c45db11887363786918c15bbec78948efc2e2aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:18 +0000
Subject: [PATCH 19/94] fix: to/IBM-93x drops an unmapped character in double
 byte mode without error or fallback

---
 src/libbsdconv.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/libbsdconv.c b/src/libbsdconv.c
index af4ea96..b4b2917 100644
--- a/src/libbsdconv.c
+++ b/src/libbsdconv.c
@@ -900,6 +900,8 @@ void bsdconv(struct bsdconv_instance *ins){
 								this_phase->curr=prev_phase->data_head;
 							}else if(this_codec->cbflush){
 								this_codec->cbflush(ins);
+								/* the datum which could not be matched is yet to be handled */
+								this_phase->curr=prev_phase->data_head;
 							}
 
 							this_phase->flags &= ~F_MATCH;
-- 
2.43.0


From 4d52fc25a6f110be21252a840d7c3c39c20352ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:18 +0000
Subject: [PATCH 20/94] fix: a partial match at flush leaves inter/REPLACE in
 the middle of its pattern

---
 src/libbsdconv.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/libbsdconv.c b/src/libbsdconv.c
index b4b2917..941e9a0 100644
--- a/src/libbsdconv.c
+++ b/src/libbsdconv.c
@@ -1014,8 +1014,14 @@ void bsdconv(struct bsdconv_instance *ins){
 						if(!(this_phase->flags & F_MATCH) && this_codec->cbinit)
 							this_codec->cbinit(ins);
 						goto from_deadend;
-					case INTER:	goto inter_deadend;
-					case TO:	goto to_deadend;
+					case INTER:
+						if(!(this_phase->flags & F_MATCH) && this_codec->cbinit)
+							this_codec->cbinit(ins);
+						goto inter_deadend;
+					case TO:
+						if(!(this_phase->flags & F_MATCH) && this_codec->cbinit)
+							this_codec->cbinit(ins);
+						goto to_deadend;
 				}
 			}
 		}
-- 
2.43.0


From 08809f00bee6ead433a269c35f874f3d5cac6aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:18 +0000
Subject: [PATCH 21/94] fix: from/_UTF-8#CESU&LOOSE drops a lead surrogate and
 the bytes after it when no trail surrogate follows

---
 modules/from/_UTF-8.c | 7 +++++--
 src/libbsdconv.c      | 5 +++++
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/modules/from/_UTF-8.c b/modules/from/_UTF-8.c
index 70ca86c..315bd8d 100644
--- a/modules/from/_UTF-8.c
+++ b/modules/from/_UTF-8.c
@@ -54,7 +54,8 @@ void cbdestroy(struct bsdconv_instance *ins){
 
 #define DEADEND() do{	\
 	t->status = 0;	\
-	t->lead_surrogate.ucs4 = 0;	\
+	if(!(this_phase->flags & F_MATCH))	\
+		t->lead_surrogate.ucs4 = 0;	\
 	t->ucs.ucs4 = 0;	\
 	this_phase->state.status=DEADEND;	\
 	return;	\
@@ -155,8 +156,10 @@ void cbflush(struct bsdconv_instance *ins){
 	struct my_s *t=THIS_CODEC(ins)->priv;
 	if(t->lead_surrogate.ucs4 && t->loose){
 		PASS(t->lead_surrogate);
-		t->lead_surrogate.ucs4 = 0;
 	}
+	t->lead_surrogate.ucs4 = 0;
+	t->status = 0;
+	t->ucs.ucs4 = 0;
 }
 
 void cbconv(struct bsdconv_instance *ins){
diff --git a/src/libbsdconv.c b/src/libbsdconv.c
index 941e9a0..e347855 100644
--- a/src/libbsdconv.c
+++ b/src/libbsdconv.c
@@ -651,6 +651,11 @@ void bsdconv(struct bsdconv_instance *ins){
 										this_phase->i=this_phase->data_head->len;
 									}else if(this_codec->cbflush){
 										this_codec->cbflush(ins);
+
+										/* the bytes after the match are yet to be decoded */
+										LISTFREE(ins, prev_phase->data_head, this_phase->bak, prev_phase->data_tail);
+										this_phase->curr=prev_phase->data_head;
+										this_phase->i=this_phase->data_head->len;
 									}
 									this_phase->flags &= ~F_MATCH;
 									RESET(ins->phase_index);
-- 
2.43.0


From 6e8ee8c41160e4a317b2025d4c419613371fb71f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:06 +0000
Subject: [PATCH 22/94] fix: arguments of aliased codecs are read after they
 were freed

---
 src/libbsdconv.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/libbsdconv.c b/src/libbsdconv.c
index e347855..079097c 100644
--- a/src/libbsdconv.c
+++ b/src/libbsdconv.c
@@ -427,17 +427,19 @@ struct bsdconv_instance *bsdconv_create(const char *_conversion){
 						SetLastError(EDOOFUS);
 						return NULL;
 					}
+					char *bak=NULL;
 					c=bsdconv_solve_alias(ins->phase[i].type, ins->phase[i].codec[j].desc);
 					if(c==NULL){
 						e=1;
 					}else{
 						if(strcmp(c, ins->phase[i].codec[j].desc)==0)
 							e=1;
-						free(ins->phase[i].codec[j].desc);
+						bak=ins->phase[i].codec[j].desc; /* argv points into it */
 						ins->phase[i].codec[j].desc=c;
 					}
 					free(conversion);
 					conversion=bsdconv_pack(ins);
+					free(bak);
 					for(i=1;i<=ins->phasen;++i){
 						for(j=0;j<=ins->phase[i].codecn;++j){
 							free(ins->phase[i].codec[j].desc);
-- 
2.43.0


From 25aa6d63c28a74abcc62fed6b8e7da5c4e0c6b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:02 +0000
Subject: [PATCH 23/94] fix: inter/WHITESPACE-RERAIL loses whitespaces when the
 text became shorter in between

---
 modules/inter/WHITESPACE-RERAIL.c | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/modules/inter/WHITESPACE-RERAIL.c b/modules/inter/WHITESPACE-RERAIL.c
index 2880b18..77cf384 100644
--- a/modules/inter/WHITESPACE-RERAIL.c
+++ b/modules/inter/WHITESPACE-RERAIL.c
@@ -98,12 +98,9 @@ void cbconv(struct bsdconv_instance *ins){
 		t->queue=q;
 	}
 
-	if(t->queue){
-		this_phase->flags |= (F_MATCH | F_PENDING);
-	}else{
-		this_phase->flags &= ~(F_MATCH | F_PENDING);
-	}
-	this_phase->match_data=NULL;
+	/* whitespaces left are put back later, at flush at the latest */
+	if(t->queue)
+		this_phase->state.status=SUBMATCH;
 
 	return;
 }
-- 
2.43.0


From a54d004035ce0c91c7ee849ebf8a74cfdc6755c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:02 +0000
Subject: [PATCH 24/94] fix: inter/_NF-ORDER keeps pending characters across
 bsdconv_init and leaks them

---
 modules/inter/_NF-ORDER.c | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/modules/inter/_NF-ORDER.c b/modules/inter/_NF-ORDER.c
index 0b0a120..ad6589c 100644
--- a/modules/inter/_NF-ORDER.c
+++ b/modules/inter/_NF-ORDER.c
@@ -26,6 +26,19 @@ int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
 	return 0;
 }
 
+void cbinit(struct bsdconv_instance *ins){
+	struct my_s *r=THIS_CODEC(ins)->priv;
+
+	while(r->head->next){
+		struct ll_s *next=r->head->next;
+		DATUM_FREE(ins, r->head->p);
+		free(r->head);
+		r->head=next;
+	}
+	r->head=r->tail;
+	r->head->prev=NULL;
+}
+
 void cbflush(struct bsdconv_instance *ins){
 	struct bsdconv_phase *this_phase=THIS_PHASE(ins);
 	struct my_s *r=THIS_CODEC(ins)->priv;
@@ -122,6 +135,7 @@ void cbconv(struct bsdconv_instance *ins){
 
 void cbdestroy(struct bsdconv_instance *ins){
 	struct my_s *r=THIS_CODEC(ins)->priv;
-	free(r->head);
+	cbinit(ins);
+	free(r->tail);
 	free(r);
 }
-- 
2.43.0


From 223b295f4561c90942ef894f0bad4528d8dace3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:02 +0000
Subject: [PATCH 25/94] fix: codec arguments without value crash bsdconv_create

---
 modules/inter/PASS.c    |  2 +-
 modules/inter/SCORE.c   |  6 ++++++
 modules/inter/STRINGS.c |  2 +-
 modules/to/ESCAPE.c     | 14 ++++++++++++--
 src/libbsdconv_filter.c |  6 +++++-
 src/libbsdconv_scorer.c |  6 +++++-
 6 files changed, 30 insertions(+), 6 deletions(-)

diff --git a/modules/inter/PASS.c b/modules/inter/PASS.c
index 9cf376a..ebeceef 100644
--- a/modules/inter/PASS.c
+++ b/modules/inter/PASS.c
@@ -21,7 +21,7 @@ int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
 	while(arg){
 		if(strcasecmp(arg->key, "FOR")==0){
 			filter=arg->ptr;
-		}else if(strcasecmp(arg->key, "LIMIT")==0 && sscanf(arg->ptr, "%d", &i)==1){
+		}else if(strcasecmp(arg->key, "LIMIT")==0 && arg->ptr && sscanf(arg->ptr, "%d", &i)==1){
 			r->limit=i;
 		}else{
 			free(r);
diff --git a/modules/inter/SCORE.c b/modules/inter/SCORE.c
index 34b5fc5..f1ce72b 100644
--- a/modules/inter/SCORE.c
+++ b/modules/inter/SCORE.c
@@ -27,11 +27,17 @@ int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
 		}else if(strcasecmp(arg->key, "AS")==0){
 			counter=arg->ptr;
 		}else{
+			free(r);
 			return EINVAL;
 		}
 		arg=arg->next;
 	}
 
+	if(scorer==NULL || counter==NULL){
+		free(r);
+		return EINVAL;
+	}
+
 	if(strcasecmp(scorer, "TRAINED")==0){
 		char *p=getenv("BSDCONV_SCORE");
 		if(p==NULL){
diff --git a/modules/inter/STRINGS.c b/modules/inter/STRINGS.c
index 14f0453..b7c790f 100644
--- a/modules/inter/STRINGS.c
+++ b/modules/inter/STRINGS.c
@@ -25,7 +25,7 @@ int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
 	while(arg){
 		if(strcasecmp(arg->key, "FOR")==0){
 			filter=arg->ptr;
-		}else if(strcasecmp(arg->key, "MIN-LEN")==0 && sscanf(arg->ptr, "%d", &i)==1){
+		}else if(strcasecmp(arg->key, "MIN-LEN")==0 && arg->ptr && sscanf(arg->ptr, "%d", &i)==1){
 			r->min_len=i;
 		}else if(strcasecmp(arg->key, "AFTER")==0){
 			after=arg->ptr;
diff --git a/modules/to/ESCAPE.c b/modules/to/ESCAPE.c
index ab6b147..f2b2939 100644
--- a/modules/to/ESCAPE.c
+++ b/modules/to/ESCAPE.c
@@ -39,7 +39,12 @@ int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
 				return e;
 			}
 		}else if(strcasecmp(arg->key, "MODE")==0){
-			if(strcasecmp(arg->ptr, "HEX")==0 || strcasecmp(arg->ptr, "16")==0){
+			if(arg->ptr==NULL){
+				free(r->prefix.data);
+				free(r->suffix.data);
+				free(r);
+				return EINVAL;
+			}else if(strcasecmp(arg->ptr, "HEX")==0 || strcasecmp(arg->ptr, "16")==0){
 				r->mode=16;
 			}else if(strcasecmp(arg->ptr, "DEC")==0 || strcasecmp(arg->ptr, "10")==0){
 				r->mode=10;
@@ -52,7 +57,12 @@ int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
 				return EINVAL;
 			}
 		}else if(strcasecmp(arg->key, "FOR")==0){
-			if(strcasecmp(arg->ptr, "UNICODE")==0 || strcasecmp(arg->ptr, "1")==0 || strcasecmp(arg->ptr, "01")==0){
+			if(arg->ptr==NULL){
+				free(r->prefix.data);
+				free(r->suffix.data);
+				free(r);
+				return EINVAL;
+			}else if(strcasecmp(arg->ptr, "UNICODE")==0 || strcasecmp(arg->ptr, "1")==0 || strcasecmp(arg->ptr, "01")==0){
 				r->filter=1;
 			}else if(strcasecmp(arg->ptr, "BYTE")==0 || strcasecmp(arg->ptr, "3")==0 || strcasecmp(arg->ptr, "03")==0){
 				r->filter=3;
diff --git a/src/libbsdconv_filter.c b/src/libbsdconv_filter.c
index d386c4e..c346338 100644
--- a/src/libbsdconv_filter.c
+++ b/src/libbsdconv_filter.c
@@ -4,7 +4,11 @@ struct bsdconv_filter *load_filter(const char *_name){
 	char *cwd;
 	char *c;
 	char path[PATH_MAX+1];
-	char *name=strdup(_name);
+	char *name;
+
+	if(_name==NULL)
+		return NULL;
+	name=strdup(_name);
 	strtoupper(name);
 
 	while(!bsdconv_module_check(FILTER, name)){
diff --git a/src/libbsdconv_scorer.c b/src/libbsdconv_scorer.c
index 69cda29..496a013 100644
--- a/src/libbsdconv_scorer.c
+++ b/src/libbsdconv_scorer.c
@@ -4,7 +4,11 @@ struct bsdconv_scorer *load_scorer(const char *_name){
 	char *cwd;
 	char *c;
 	char path[PATH_MAX+1];
-	char *name=strdup(_name);
+	char *name;
+
+	if(_name==NULL)
+		return NULL;
+	name=strdup(_name);
 	strtoupper(name);
 
 	while(!bsdconv_module_check(SCORER, name)){
-- 
2.43.0


From a0b08e39ca79837936e0a91f04634e5711de61f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:36 +0000
Subject: [PATCH 26/94] fix: BSDCONV-LOG crashes when its log file cannot be
 opened

---
 modules/from/BSDCONV-LOG.c | 7 ++++++-
 modules/to/BSDCONV-LOG.c   | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/modules/from/BSDCONV-LOG.c b/modules/from/BSDCONV-LOG.c
index 1483bf8..2b518d0 100644
--- a/modules/from/BSDCONV-LOG.c
+++ b/modules/from/BSDCONV-LOG.c
@@ -1,3 +1,4 @@
+#include <errno.h>
 #include <stdlib.h>
 #include <stdio.h>
 #include "../../src/bsdconv.h"
@@ -5,7 +6,11 @@
 #define TAILIZE(p) while(*p){ p++ ;}
 
 int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
-	THIS_CODEC(ins)->priv=fopen(getenv("BSDCONV_FROM_LOG"),"a");
+	char *path=getenv("BSDCONV_FROM_LOG");
+	FILE *fp=path ? fopen(path, "a") : NULL;
+	if(fp==NULL)
+		return EINVAL;
+	THIS_CODEC(ins)->priv=fp;
 	return 0;
 }
 
diff --git a/modules/to/BSDCONV-LOG.c b/modules/to/BSDCONV-LOG.c
index 533e5ec..9df4c7f 100644
--- a/modules/to/BSDCONV-LOG.c
+++ b/modules/to/BSDCONV-LOG.c
@@ -1,3 +1,4 @@
+#include <errno.h>
 #include <stdlib.h>
 #include <stdio.h>
 #include "../../src/bsdconv.h"
@@ -5,7 +6,11 @@
 #define TAILIZE(p) while(*p){ p++ ;}
 
 int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
-	THIS_CODEC(ins)->priv=fopen(getenv("BSDCONV_TO_LOG"),"a");
+	char *path=getenv("BSDCONV_TO_LOG");
+	FILE *fp=path ? fopen(path, "a") : NULL;
+	if(fp==NULL)
+		return EINVAL;
+	THIS_CODEC(ins)->priv=fp;
 	return 0;
 }
 
-- 
2.43.0


From 3bafe1a9cf14ecfa8fa63b7eca9af891521d2eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:36 +0000
Subject: [PATCH 27/94] fix: inter/SCORE and inter/SCORE-TRAIN crash when there
 is no home directory or score file

---
 modules/inter/SCORE-TRAIN.c | 15 ++++++++++++---
 modules/inter/SCORE.c       |  7 +++++--
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/modules/inter/SCORE-TRAIN.c b/modules/inter/SCORE-TRAIN.c
index 714501e..41a07cf 100644
--- a/modules/inter/SCORE-TRAIN.c
+++ b/modules/inter/SCORE-TRAIN.c
@@ -1,3 +1,4 @@
+#include <errno.h>
 #include <limits.h>
 #include <stdint.h>
 #include <stdio.h>
@@ -15,13 +16,21 @@ int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
 	char buf[256]={0};
 	char *p=getenv("BSDCONV_SCORE");
 	if(p==NULL){
-		strcpy(buf,getenv("HOME"));
-		strcat(buf,"/.bsdconv.score");
+		p=getenv("HOME");
+		if(p==NULL || snprintf(buf, sizeof(buf), "%s/.bsdconv.score", p)>=sizeof(buf)){
+			free(r);
+			return EINVAL;
+		}
 		p=buf;
 	}
 	r->bak=fopen(p,"a"); //ensure file existence
-	fclose(r->bak);
+	if(r->bak)
+		fclose(r->bak);
 	r->bak=r->score=fopen(p,"rb+");
+	if(r->bak==NULL){
+		free(r);
+		return EINVAL;
+	}
 	r->list=NULL;
 	THIS_CODEC(ins)->priv=r;
 	return 0;
diff --git a/modules/inter/SCORE.c b/modules/inter/SCORE.c
index f1ce72b..2dac6b2 100644
--- a/modules/inter/SCORE.c
+++ b/modules/inter/SCORE.c
@@ -42,8 +42,11 @@ int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
 		char *p=getenv("BSDCONV_SCORE");
 		if(p==NULL){
 			//try default score file
-			strcpy(buf,getenv("HOME"));
-			strcat(buf,"/.bsdconv.score");
+			p=getenv("HOME");
+			if(p==NULL || snprintf(buf, sizeof(buf), "%s/.bsdconv.score", p)>=sizeof(buf)){
+				free(r);
+				return EINVAL;
+			}
 			p=buf;
 		}
 		r->bak=r->score=fopen(p,"rb+");
-- 
2.43.0


From f3d58f2edfc99e48cc4cb1db88a1d540ed992197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:36 +0000
Subject: [PATCH 28/94] fix: bsdconv_create leaks or crashes on its error paths

---
 modules/inter/INSERT.c     |  1 +
 modules/inter/REPLACE.c    |  1 +
 modules/inter/STRINGS.c    |  2 ++
 modules/inter/TRIM-WIDTH.c |  9 ++++++++-
 src/libbsdconv.c           | 32 +++++++++++++++++++++-----------
 5 files changed, 33 insertions(+), 12 deletions(-)

diff --git a/modules/inter/INSERT.c b/modules/inter/INSERT.c
index 6149aa2..04b08af 100644
--- a/modules/inter/INSERT.c
+++ b/modules/inter/INSERT.c
@@ -21,6 +21,7 @@ int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
 		}else if(strcasecmp(arg->key, "BEFORE")==0){
 			before=arg->ptr;
 		}else{
+			free(r);
 			return EINVAL;
 		}
 		arg=arg->next;
diff --git a/modules/inter/REPLACE.c b/modules/inter/REPLACE.c
index ebd0b64..d5d8dd5 100644
--- a/modules/inter/REPLACE.c
+++ b/modules/inter/REPLACE.c
@@ -16,6 +16,7 @@ int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
 	while(arg){
 		DATA_FREE(ins, r->from);
 		DATA_FREE(ins, r->to);
+		r->to=NULL;
 		r->from=str2data(arg->key, &e, ins);
 		if(e){
 			free(r);
diff --git a/modules/inter/STRINGS.c b/modules/inter/STRINGS.c
index b7c790f..cc98b20 100644
--- a/modules/inter/STRINGS.c
+++ b/modules/inter/STRINGS.c
@@ -49,6 +49,7 @@ int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
 		if(i){
 			if(r->after)
 				DATA_FREE(ins, r->after);
+			unload_filter(r->filter);
 			free(r);
 			return i;
 		}
@@ -61,6 +62,7 @@ int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
 				DATA_FREE(ins, r->after);
 			if(r->before)
 				DATA_FREE(ins, r->before);
+			unload_filter(r->filter);
 			free(r);
 			return i;
 		}
diff --git a/modules/inter/TRIM-WIDTH.c b/modules/inter/TRIM-WIDTH.c
index 0b7dc8b..4d334be 100644
--- a/modules/inter/TRIM-WIDTH.c
+++ b/modules/inter/TRIM-WIDTH.c
@@ -29,15 +29,22 @@ int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
 			r->width=i;
 			width_set=1;
 		}else{
+			free(r);
 			return EINVAL;
 		}
 		arg=arg->next;
 	}
 
-	if(width_set==0)
+	if(width_set==0){
+		free(r);
 		return EINVAL;
+	}
 
 	r->ins=bsdconv_create("WIDTH");
+	if(r->ins==NULL){
+		free(r);
+		return EOPNOTSUPP;
+	}
 	r->full=bsdconv_counter(r->ins, "FULL");
 	r->half=bsdconv_counter(r->ins, "HALF");
 	r->ambi=bsdconv_counter(r->ins, "AMBI");
diff --git a/src/libbsdconv.c b/src/libbsdconv.c
index 079097c..7210566 100644
--- a/src/libbsdconv.c
+++ b/src/libbsdconv.c
@@ -367,8 +367,10 @@ struct bsdconv_instance *bsdconv_unpack(const char *_conversion){
 				ins->phase[i].codec[j].argv+=1;
 			}
 			if(ins->phase[i].codec[j].desc[0]==0){
-				for(;j>=0;--j){
-					free(ins->phase[i].codec[j].desc);
+				for(;i>=1;j=ins->phase[--i].codecn){
+					for(;j>=0;--j){
+						free(ins->phase[i].codec[j].desc);
+					}
 				}
 				for(i=1;i<=ins->phasen;++i){
 					free(ins->phase[i].codec);
@@ -422,10 +424,13 @@ struct bsdconv_instance *bsdconv_create(const char *_conversion){
 				if(!bsdconv_module_check(ins->phase[i].type, ins->phase[i].codec[j].desc)){
 					if(bsdconv_module_vital(ins->phase[i].type, ins->phase[i].codec[j].desc)){
 						printf("error %s\n", ins->phase[i].codec[j].desc);
-						free(conversion);
-						bsdconv_destroy(ins);
+						for(i=1;i<=ins->phasen;++i){
+							for(j=0;j<=ins->phase[i].codecn;++j){
+								free(ins->phase[i].codec[j].desc);
+							}
+						}
 						SetLastError(EDOOFUS);
-						return NULL;
+						goto bsdconv_create_error;
 					}
 					char *bak=NULL;
 					c=bsdconv_solve_alias(ins->phase[i].type, ins->phase[i].codec[j].desc);
@@ -461,12 +466,12 @@ struct bsdconv_instance *bsdconv_create(const char *_conversion){
 	for(i=1;i<=ins->phasen;++i){
 		for(j=0;j<=ins->phase[i].codecn;++j){
 			if(!loadcodec(&ins->phase[i].codec[j], ins->phase[i].type)){
-				free(ins->phase[i].codec[j].desc);
-				j-=1;
-				for(;i>=1;j=ins->phase[--i].codecn){
-					for(;j>=0;--j){
-						free(ins->phase[i].codec[j].desc);
-						unloadcodec(&ins->phase[i].codec[j]);
+				int k, l;
+				for(k=1;k<=ins->phasen;++k){
+					for(l=0;l<=ins->phase[k].codecn;++l){
+						free(ins->phase[k].codec[l].desc);
+						if(k<i || (k==i && l<j))
+							unloadcodec(&ins->phase[k].codec[l]);
 					}
 				}
 				goto bsdconv_create_error;
@@ -530,6 +535,11 @@ bsdconv_create_error:
 	free(ins->phase);
 
 	void *p;
+	while(ins->pool){
+		p=ins->pool->next;
+		free(ins->pool);
+		ins->pool=p;
+	}
 	while(ins->hash){
 		free(ins->hash->key);
 		p=ins->hash->next;
-- 
2.43.0


From db0292553741237e72cb50f256ebdbfb4ec047a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:54 +0000
Subject: [PATCH 29/94] fix: bsdconv -i loses the file when the result cannot
 be written

---
 src/bsdconv.c | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/bsdconv.c b/src/bsdconv.c
index 74794eb..1baab6f 100644
--- a/src/bsdconv.c
+++ b/src/bsdconv.c
@@ -148,10 +148,21 @@ int main(int argc, char *argv[]){
 			fchmod(fileno(otf), stat.st_mode);
 #endif
 			bsdconv_file(ins, inf, otf, argv[i]);
+			int e=ferror(inf) || ferror(otf);
 			fclose(inf);
-			fclose(otf);
-			unlink(argv[i]);
-			rename(tmp,argv[i]);
+			if(fclose(otf)!=0)
+				e=1;
+#ifdef WIN32
+			if(!e)
+				unlink(argv[i]);
+#endif
+			if(e || rename(tmp,argv[i])!=0){
+				fprintf(stderr, "Failed saving file %s.\n", argv[i]);
+				unlink(tmp);
+				free(tmp);
+				bsdconv_destroy(ins);
+				exit(1);
+			}
 			free(tmp);
 
 		}else{
-- 
2.43.0


From 36b442a7385cb2d7b29cf93c7c515a4c92589a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:54 +0000
Subject: [PATCH 30/94] fix: BSDCONV_FD loses output on short writes

---
 src/libbsdconv.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/libbsdconv.c b/src/libbsdconv.c
index 7210566..eee26f6 100644
--- a/src/libbsdconv.c
+++ b/src/libbsdconv.c
@@ -1110,7 +1110,14 @@ void bsdconv(struct bsdconv_instance *ins){
 			fd=(intptr_t)ins->output.data;
 			while(last_phase->data_head->next){
 				data_ptr=last_phase->data_head->next;
-				write(fd, data_ptr->data, data_ptr->len);
+				for(i=0;i<data_ptr->len;){
+					ssize_t n=write(fd, CP(data_ptr->data)+i, data_ptr->len-i);
+					if(n<0 && errno==EINTR)
+						continue;
+					if(n<=0)
+						break;
+					i+=n;
+				}
 				last_phase->data_head->next=last_phase->data_head->next->next;
 				DATUM_FREE(ins, data_ptr);
 			}
-- 
2.43.0


From c013585eff6d663f2de44e65d72226fc4c84b381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:07 +0000
Subject: [PATCH 31/94] fix: bsdconv-mktable reads past the end of ci_table

---
 src/bsdconv-mktable.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bsdconv-mktable.c b/src/bsdconv-mktable.c
index 6ad1cc3..db54c92 100644
--- a/src/bsdconv-mktable.c
+++ b/src/bsdconv-mktable.c
@@ -282,7 +282,7 @@ int main(int argc, char *argv[]){
 				for(c=0;c<=256;++c){
 					if(c>=todo_item->lower_bound && c<=todo_item->upper_bound){
 						level=1;
-					}else if(case_insensitive && ci_table[c] && ci_table[c]>=todo_item->lower_bound && ci_table[c]<=todo_item->upper_bound){
+					}else if(case_insensitive && c<256 && ci_table[c] && ci_table[c]>=todo_item->lower_bound && ci_table[c]<=todo_item->upper_bound){
 						level=0;
 					}else{
 						continue;
@@ -359,7 +359,7 @@ DPRINTF("%p[%X]=%p\n", todo_item->state, c, state_t);
 			for(c=0;c<=256;++c){
 				if(c>=todo_item->lower_bound && c<=todo_item->upper_bound){
 					level=1;
-				}else if(case_insensitive && ci_table[c] && ci_table[c]>=todo_item->lower_bound && ci_table[c]<=todo_item->upper_bound){
+				}else if(case_insensitive && c<256 && ci_table[c] && ci_table[c]>=todo_item->lower_bound && ci_table[c]<=todo_item->upper_bound){
 					level=0;
 				}else{
 					continue;
-- 
2.43.0


From d60dd9747a6e24d156c03dedb2b6c030fc0acd56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:07 +0000
Subject: [PATCH 32/94] fix: bsdconv_modules_list changes the working directory
 when called with an unknown type

---
 src/libbsdconv_module.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/libbsdconv_module.c b/src/libbsdconv_module.c
index 2cc822b..8328c02 100644
--- a/src/libbsdconv_module.c
+++ b/src/libbsdconv_module.c
@@ -184,6 +184,8 @@ char ** bsdconv_modules_list(int phase_type){
 			type="scorer";
 			break;
 		default:
+			chdir(cwd);
+			free(cwd);
 			return list;
 	}
 	dir=opendir(type);
-- 
2.43.0


From 737a94201506f588f012b336e9d45f3d522b1d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:33 +0000
Subject: [PATCH 33/94] fix: bsdconv-mktable matches upper case
 case-insensitive keys wrongly (a for Z, no lower case)

---
 src/bsdconv-mktable.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bsdconv-mktable.c b/src/bsdconv-mktable.c
index db54c92..81b22c1 100644
--- a/src/bsdconv-mktable.c
+++ b/src/bsdconv-mktable.c
@@ -178,9 +178,9 @@ int main(int argc, char *argv[]){
 	}
 
 	/* case insensitive table */
-	for(i=0;i<=26;++i){
+	for(i=0;i<26;++i){
 		ci_table['A'+i]='a'+i;
-		ci_table['a']='A'+i;
+		ci_table['a'+i]='A'+i;
 	}
 
 	if(argc!=3){
-- 
2.43.0


From 7dee79faf9eb61aba1566e386bd750ced3bd6dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:17 +0000
Subject: [PATCH 34/94] fix: inter/ZH-BONUS and ZH-BONUS-PHRASE replace
 characters which merely begin like a listed one

---
 modules/inter/BONUS.c | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/modules/inter/BONUS.c b/modules/inter/BONUS.c
index b307c64..b4cff1a 100644
--- a/modules/inter/BONUS.c
+++ b/modules/inter/BONUS.c
@@ -11,7 +11,33 @@ void cbconv(struct bsdconv_instance *ins){
 	bsdconv_counter_t *counter=THIS_CODEC(ins)->priv;
 	unsigned char *data;
 	struct bsdconv_phase *this_phase=THIS_PHASE(ins);
+	struct bsdconv_phase *prev_phase=PREV_PHASE(ins);
 	struct data_st data_st;
+	struct state_rt state;
+	offset_t offset=0;
+	unsigned int i;
+
+	/* the engine stays on an entry when the data go on past it: only an exact match counts */
+	state=read_state(THIS_CODEC(ins), 0);
+	for(data_ptr=prev_phase->data_head->next;;data_ptr=data_ptr->next){
+		for(i=0;i<data_ptr->len;i+=1){
+			offset=get_offset(THIS_CODEC(ins), &state, UCP(data_ptr->data)[i]);
+			if(offset==0){
+				this_phase->state.status=DEADEND;
+				return;
+			}
+			state=read_state(THIS_CODEC(ins), offset);
+		}
+		if(data_ptr==this_phase->curr)
+			break;
+		offset=get_offset(THIS_CODEC(ins), &state, 256);
+		if(offset==0){
+			this_phase->state.status=DEADEND;
+			return;
+		}
+		state=read_state(THIS_CODEC(ins), offset);
+	}
+
 	memcpy(&data_st, (char *)((this_phase->codec[this_phase->index].data_z)+(uintptr_t)this_phase->state.data), sizeof(struct data_st));
 	data=UCP((THIS_CODEC(ins)->data_z)+(uintptr_t)de_offset(data_st.data));
 
-- 
2.43.0


From 29779c419783713ee561fa1fdc525ffea2240d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:11 +0000
Subject: [PATCH 35/94] fix: bytes after a malformed sequence are lost when it
 spans input chunks

The error path freed all nodes before the one where the sequence broke off
and then skipped a byte in that one, instead of dropping the first byte of
the sequence and resuming at the second.
---
 src/libbsdconv.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/libbsdconv.c b/src/libbsdconv.c
index eee26f6..950dc6f 100644
--- a/src/libbsdconv.c
+++ b/src/libbsdconv.c
@@ -687,7 +687,12 @@ void bsdconv(struct bsdconv_instance *ins){
 									RESET(ins->phase_index);
 									this_codec=THIS_CODEC(ins);
 
-									this_phase->bak=this_phase->curr;
+									/* drop one byte only: the rest, maybe in later nodes, is yet to be decoded */
+									this_phase->bak=prev_phase->data_head->next;
+									while(this_phase->bak!=this_phase->curr && this_phase->data_head->len>=this_phase->bak->len){
+										this_phase->bak=this_phase->bak->next;
+										this_phase->data_head->len=0;
+									}
 									LISTFREE(ins, prev_phase->data_head, this_phase->bak, prev_phase->data_tail);
 									this_phase->bak=this_phase->curr=prev_phase->data_head;
 									this_phase->i=this_phase->data_head->len=this_phase->data_head->len+1;
-- 
2.43.0


From 458665992b9293d4c5bbd1fb73950273cc0dac6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:49 +0000
Subject: [PATCH 36/94] fix: inter/STRINGS uses strings shorter than MIN-LEN
 after freeing them

---
 modules/inter/STRINGS.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modules/inter/STRINGS.c b/modules/inter/STRINGS.c
index cc98b20..ceea96f 100644
--- a/modules/inter/STRINGS.c
+++ b/modules/inter/STRINGS.c
@@ -121,6 +121,7 @@ void cbflush(struct bsdconv_instance *ins){
 				LISTCPY(ins, this_phase->data_tail, r->after);
 		}else{
 			DATA_FREE(ins, r->qh->next);
+			r->qh->next=NULL;
 			r->qt=r->qh;
 			r->acc_len=0;
 		}
-- 
2.43.0


From bcc8e2818a2eb8eee77629079f57627ee8be10ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:50 +0000
Subject: [PATCH 37/94] fix: from/_GB18030 cannot decode the four-byte codes
 listed in its table

---
 modules/from/_GB18030.c | 144 ++++++++++++++++++++--------------------
 1 file changed, 73 insertions(+), 71 deletions(-)

diff --git a/modules/from/_GB18030.c b/modules/from/_GB18030.c
index 5ad6a57..3721755 100644
--- a/modules/from/_GB18030.c
+++ b/modules/from/_GB18030.c
@@ -69,86 +69,88 @@ void cbconv(struct bsdconv_instance *ins){
 	int i;
 	ucs_t ucs;
 
-	for(;this_phase->i<this_phase->curr->len;this_phase->i+=1){
-		d=UCP(this_phase->curr->data)[this_phase->i];
-		memcpy(&data, (char *)(this_phase->codec[this_phase->index].data_z+(uintptr_t)this_phase->state.data), sizeof(struct data_st));
-		c=UCP(this_phase->codec[this_phase->index].data_z+de_offset(data.data));
-		next:
-		switch(t->status){
-			case 0:
-				if(t->status<data.len){
-					t->ucs=c[0]*10;
-					t->status=1;
-					goto next;
-				}
-				t->ucs=d*10;
+	/* one byte per call: the engine prefers the codes which are listed in the table */
+	if(!(this_phase->flags & F_LOOPBACK))
+		t->status=0;
+
+	d=UCP(this_phase->curr->data)[this_phase->i];
+	memcpy(&data, (char *)(this_phase->codec[this_phase->index].data_z+(uintptr_t)this_phase->state.data), sizeof(struct data_st));
+	c=UCP(this_phase->codec[this_phase->index].data_z+de_offset(data.data));
+	next:
+	switch(t->status){
+		case 0:
+			if(t->status<data.len){
+				t->ucs=c[0]*10;
 				t->status=1;
-				break;
-			case 1:
-				if(t->status<data.len){
-					t->ucs+=c[1];
-					t->ucs*=126;
-					t->status=2;
-					goto next;
-				}
-				t->ucs+=d;
+				goto next;
+			}
+			t->ucs=d*10;
+			t->status=1;
+			break;
+		case 1:
+			if(t->status<data.len){
+				t->ucs+=c[1];
 				t->ucs*=126;
 				t->status=2;
-				break;
-			case 2:
-				if(t->status<data.len){
-					t->ucs+=c[2];
-					t->ucs*=10;
-					t->status=3;
-					goto next;
-				}
-				t->ucs+=d;
+				goto next;
+			}
+			t->ucs+=d;
+			t->ucs*=126;
+			t->status=2;
+			break;
+		case 2:
+			if(t->status<data.len){
+				t->ucs+=c[2];
 				t->ucs*=10;
 				t->status=3;
-				break;
-			case 3:
-				if(t->status<data.len){
-					t->ucs+=c[3];
-					t->status=0;
-					goto next;
-				}
-				t->ucs+=d;
+				goto next;
+			}
+			t->ucs+=d;
+			t->ucs*=10;
+			t->status=3;
+			break;
+		case 3:
+			if(t->status<data.len){
+				t->ucs+=c[3];
 				t->status=0;
-				if (t->ucs < gb18030_table[0].beg || t->ucs > gb18030_table[max].end){
-					DEADEND();
-				}else while (max >= min) {
-					mid = (min + max) / 2;
-					if (t->ucs > gb18030_table[mid].end)
-						min = mid + 1;
-					else if (t->ucs < gb18030_table[mid].beg)
-						max = mid - 1;
-					else{
-						break;
-					}
+				goto next;
+			}
+			t->ucs+=d;
+			t->status=0;
+			if (t->ucs < gb18030_table[0].beg || t->ucs > gb18030_table[max].end){
+				DEADEND();
+			}else while (max >= min) {
+				mid = (min + max) / 2;
+				if (t->ucs > gb18030_table[mid].end)
+					min = mid + 1;
+				else if (t->ucs < gb18030_table[mid].beg)
+					max = mid - 1;
+				else{
+					break;
 				}
-				if(gb18030_table[mid].beg<=t->ucs && t->ucs<=gb18030_table[mid].end){
-					ucs.ucs4=htobe32(gb18030_table[mid].off + (t->ucs - gb18030_table[mid].beg));
-					for(i=0;ucs.byte[i]==0 && i<4;++i);
-					DATA_MALLOC(ins, this_phase->data_tail->next);
-					this_phase->data_tail=this_phase->data_tail->next;
-					this_phase->data_tail->next=NULL;
-					this_phase->data_tail->len=5 - i;
-					this_phase->data_tail->data=c=malloc(5 - i);
-					this_phase->data_tail->flags=F_FREE;
-					this_phase->state.status=NEXTPHASE;
-					*c=0x01;
-					c+=1;
-					for(;i<4;++i,c+=1){
-						*c=ucs.byte[i];
-					}
-					return;
-				}else{
-					DEADEND();
+			}
+			if(gb18030_table[mid].beg<=t->ucs && t->ucs<=gb18030_table[mid].end){
+				ucs.ucs4=htobe32(gb18030_table[mid].off + (t->ucs - gb18030_table[mid].beg));
+				for(i=0;ucs.byte[i]==0 && i<4;++i);
+				DATA_MALLOC(ins, this_phase->data_tail->next);
+				this_phase->data_tail=this_phase->data_tail->next;
+				this_phase->data_tail->next=NULL;
+				this_phase->data_tail->len=5 - i;
+				this_phase->data_tail->data=c=malloc(5 - i);
+				this_phase->data_tail->flags=F_FREE;
+				this_phase->state.status=NEXTPHASE;
+				*c=0x01;
+				c+=1;
+				for(;i<4;++i,c+=1){
+					*c=ucs.byte[i];
 				}
-				break;
-			default:
+				return;
+			}else{
 				DEADEND();
-		}
+			}
+			break;
+		default:
+			DEADEND();
 	}
 	this_phase->state.status=CONTINUE;
 	return;
-- 
2.43.0


From 1f05c12be3bbd733a512f32520eb1411439ce8cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:22 +0000
Subject: [PATCH 38/94] fix: from/CP932, to/CP1253, to/CP874 and to/GB2312 use
 U+00XX data which match no character

---
 modules/from/_CP932.txt | 16 ++++++++--------
 modules/to/_CP1253.txt  | 42 ++++++++++++++++++++---------------------
 modules/to/_CP874.txt   |  2 +-
 modules/to/_GB2312.txt  | 38 ++++++++++++++++++-------------------
 4 files changed, 49 insertions(+), 49 deletions(-)

diff --git a/modules/from/_CP932.txt b/modules/from/_CP932.txt
index 0669a23..11cc9c1 100644
--- a/modules/from/_CP932.txt
+++ b/modules/from/_CP932.txt
@@ -74,9 +74,9 @@ DF	01FF9F
 8149	01FF01
 814A	01309B
 814B	01309C
-814C	0100B4
+814C	01B4
 814D	01FF40
-814E	0100A8
+814E	01A8
 814F	01FF3E
 8150	01FFE3
 8151	01FF3F
@@ -123,9 +123,9 @@ DF	01FF9F
 817A	013011
 817B	01FF0B
 817C	01FF0D
-817D	0100B1
-817E	0100D7
-8180	0100F7
+817D	01B1
+817E	01D7
+8180	01F7
 8181	01FF1D
 8182	012260
 8183	01FF1C
@@ -136,7 +136,7 @@ DF	01FF9F
 8188	012234
 8189	012642
 818A	012640
-818B	0100B0
+818B	01B0
 818C	012032
 818D	012033
 818E	012103
@@ -149,7 +149,7 @@ DF	01FF9F
 8195	01FF06
 8196	01FF0A
 8197	01FF20
-8198	0100A7
+8198	01A7
 8199	012606
 819A	012605
 819B	0125CB
@@ -207,7 +207,7 @@ DF	01FF9F
 81F4	01266A
 81F5	012020
 81F6	012021
-81F7	0100B6
+81F7	01B6
 81FC	0125EF
 824F	01FF10
 8250	01FF11
diff --git a/modules/to/_CP1253.txt b/modules/to/_CP1253.txt
index b776acd..bd0407f 100644
--- a/modules/to/_CP1253.txt
+++ b/modules/to/_CP1253.txt
@@ -17,35 +17,35 @@
 012014	97
 012122	99
 01203A	9B
-0100A0	A0
+01A0	A0
 010385	A1
 010386	A2
-0100A3	A3
-0100A4	A4
-0100A5	A5
-0100A6	A6
-0100A7	A7
-0100A8	A8
-0100A9	A9
-0100AB	AB
-0100AC	AC
-0100AD	AD
-0100AE	AE
+01A3	A3
+01A4	A4
+01A5	A5
+01A6	A6
+01A7	A7
+01A8	A8
+01A9	A9
+01AB	AB
+01AC	AC
+01AD	AD
+01AE	AE
 012015	AF
-0100B0	B0
-0100B1	B1
-0100B2	B2
-0100B3	B3
+01B0	B0
+01B1	B1
+01B2	B2
+01B3	B3
 010384	B4
-0100B5	B5
-0100B6	B6
-0100B7	B7
+01B5	B5
+01B6	B6
+01B7	B7
 010388	B8
 010389	B9
 01038A	BA
-0100BB	BB
+01BB	BB
 01038C	BC
-0100BD	BD
+01BD	BD
 01038E	BE
 01038F	BF
 010390	C0
diff --git a/modules/to/_CP874.txt b/modules/to/_CP874.txt
index be22c7a..addafe8 100644
--- a/modules/to/_CP874.txt
+++ b/modules/to/_CP874.txt
@@ -8,7 +8,7 @@
 012022	95
 012013	96
 012014	97
-0100A0	A0
+01A0	A0
 010E01	A1
 010E02	A2
 010E03	A3
diff --git a/modules/to/_GB2312.txt b/modules/to/_GB2312.txt
index 00fab10..37e995f 100644
--- a/modules/to/_GB2312.txt
+++ b/modules/to/_GB2312.txt
@@ -5,7 +5,7 @@ source:	#data
 0130FB	2124
 0102C9	2125
 0102C7	2126
-0100A8	2127
+01A8	2127
 013003	2128
 013005	2129
 012015	212A
@@ -30,9 +30,9 @@ source:	#data
 013017	213D
 013010	213E
 013011	213F
-0100B1	2140
-0100D7	2141
-0100F7	2142
+01B1	2140
+01D7	2141
+01F7	2142
 012236	2143
 012227	2144
 012228	2145
@@ -65,16 +65,16 @@ source:	#data
 012234	2160
 012642	2161
 012640	2162
-0100B0	2163
+01B0	2163
 012032	2164
 012033	2165
 012103	2166
 01FF04	2167
-0100A4	2168
+01A4	2168
 01FFE0	2169
 01FFE1	216A
 012030	216B
-0100A7	216C
+01A7	216C
 012116	216D
 012606	216E
 012605	216F
@@ -543,31 +543,31 @@ source:	#data
 01044E	2770
 01044F	2771
 010101	2821
-0100E1	2822
+01E1	2822
 0101CE	2823
-0100E0	2824
+01E0	2824
 010113	2825
-0100E9	2826
+01E9	2826
 01011B	2827
-0100E8	2828
+01E8	2828
 01012B	2829
-0100ED	282A
+01ED	282A
 0101D0	282B
-0100EC	282C
+01EC	282C
 01014D	282D
-0100F3	282E
+01F3	282E
 0101D2	282F
-0100F2	2830
+01F2	2830
 01016B	2831
-0100FA	2832
+01FA	2832
 0101D4	2833
-0100F9	2834
+01F9	2834
 0101D6	2835
 0101D8	2836
 0101DA	2837
 0101DC	2838
-0100FC	2839
-0100EA	283A
+01FC	2839
+01EA	283A
 013105	2845
 013106	2846
 013107	2847
-- 
2.43.0


From 3de505a19bfb1eb899a64960cba6dccbd64be4be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:16 +0000
Subject: [PATCH 39/94] fix: from/_GB18030 accepts malformed trail bytes and
 wraps them into other characters

---
 modules/from/_GB18030.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/modules/from/_GB18030.c b/modules/from/_GB18030.c
index 3721755..7db0024 100644
--- a/modules/from/_GB18030.c
+++ b/modules/from/_GB18030.c
@@ -84,6 +84,8 @@ void cbconv(struct bsdconv_instance *ins){
 				t->status=1;
 				goto next;
 			}
+			if(d<0x81 || d>0xFE)
+				DEADEND();
 			t->ucs=d*10;
 			t->status=1;
 			break;
@@ -94,6 +96,8 @@ void cbconv(struct bsdconv_instance *ins){
 				t->status=2;
 				goto next;
 			}
+			if(d<0x30 || d>0x39)
+				DEADEND();
 			t->ucs+=d;
 			t->ucs*=126;
 			t->status=2;
@@ -105,6 +109,8 @@ void cbconv(struct bsdconv_instance *ins){
 				t->status=3;
 				goto next;
 			}
+			if(d<0x81 || d>0xFE)
+				DEADEND();
 			t->ucs+=d;
 			t->ucs*=10;
 			t->status=3;
@@ -115,6 +121,8 @@ void cbconv(struct bsdconv_instance *ins){
 				t->status=0;
 				goto next;
 			}
+			if(d<0x30 || d>0x39)
+				DEADEND();
 			t->ucs+=d;
 			t->status=0;
 			if (t->ucs < gb18030_table[0].beg || t->ucs > gb18030_table[max].end){
-- 
2.43.0


From 40685f79dbe8d46ae0cea1aa7df8362e5ecd810f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:55 +0000
Subject: [PATCH 40/94] fix: from/_GB18030 cannot decode 8235-8239 codes and
 decodes D9308130-D939FE39 wrongly

---
 modules/from/_GB18030.txt | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/modules/from/_GB18030.txt b/modules/from/_GB18030.txt
index 41077d3..7a9a835 100644
--- a/modules/from/_GB18030.txt
+++ b/modules/from/_GB18030.txt
@@ -6410,7 +6410,11 @@
 82358F30	014DFD
 82358F31	014DFE
 82358F32	014DFF
+8235*		?8235
 8236*		?8236
+8237*		?8237
+8238*		?8238
+8239*		?8239
 8240	014FA4
 8241	014FAB
 8242	014FAD
@@ -23628,7 +23632,7 @@ D8FB	014F67
 D8FC	016538
 D8FD	014F5A
 D8FE	014F5D
-D9*	?D0
+D9*	?D9
 D940	018CAE
 D941	018CAF
 D942	018CB0
-- 
2.43.0


From 69c995dd3af66b4cd2d3ca896b332d95a8e04c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:55 +0000
Subject: [PATCH 41/94] fix: characters which begin like a listed one are
 encoded as that one instead of being left to the callback (to/GB18030)

---
 modules/to/_GB18030.c   |  43 ++++++++++++--
 modules/to/_GB18030.txt | 128 ----------------------------------------
 src/libbsdconv.c        |  15 +++++
 3 files changed, 52 insertions(+), 134 deletions(-)

diff --git a/modules/to/_GB18030.c b/modules/to/_GB18030.c
index 9c069e2..eb1151a 100644
--- a/modules/to/_GB18030.c
+++ b/modules/to/_GB18030.c
@@ -23,20 +23,32 @@ static const struct gb18030_data gb18030_table[] = {
 	{0x10000,	0x10FFFF,	1876218},
 };
 
+/* U+0080-U+00FF is listed here instead of in the table: there, U+80XX-U+FFXX would begin with a complete key */
+static const struct {
+	uint32_t ucs;
+	uint32_t gb;
+} gb18030_latin1[] = {
+	{0xA4, 0xA1E8}, {0xA7, 0xA1EC}, {0xA8, 0xA1A7}, {0xB0, 0xA1E3},
+	{0xB1, 0xA1C0}, {0xB7, 0xA1A4}, {0xD7, 0xA1C1}, {0xE0, 0xA8A4},
+	{0xE1, 0xA8A2}, {0xE8, 0xA8A8}, {0xE9, 0xA8A6}, {0xEA, 0xA8BA},
+	{0xEC, 0xA8AC}, {0xED, 0xA8AA}, {0xF2, 0xA8B0}, {0xF3, 0xA8AE},
+	{0xF7, 0xA1C2}, {0xF9, 0xA8B4}, {0xFA, 0xA8B2}, {0xFC, 0xA8B9},
+};
+
 void cbconv(struct bsdconv_instance *ins){
 	struct bsdconv_phase *this_phase=THIS_PHASE(ins);
 	unsigned char *data, *p;
 	unsigned int len;
 	int max=sizeof(gb18030_table) / sizeof(struct gb18030_data) - 1;
 	int min = 0;
-	int mid;
+	int mid=0;
 	union {
 		unsigned char byte[4];
 		uint32_t num;
 	} codepoint;
 	int i;
 	uint32_t ucs;
-	uint32_t gb;
+	uint32_t gb=0;
 	data=this_phase->curr->data;
 
 	data+=1;
@@ -53,7 +65,25 @@ void cbconv(struct bsdconv_instance *ins){
 	}
 	ucs=be32toh(codepoint.num);
 
-	if (ucs < gb18030_table[0].beg || ucs > gb18030_table[max].end){
+	if (ucs >= 0x80 && ucs <= 0xFF){
+		/* the four-byte codes of those which have no two-byte code are consecutive */
+		gb=1687218 + ucs - 0x80;
+		for(i=0;i<(int)(sizeof(gb18030_latin1) / sizeof(gb18030_latin1[0])) && gb18030_latin1[i].ucs<=ucs;++i){
+			if(gb18030_latin1[i].ucs==ucs){
+				DATA_MALLOC(ins, this_phase->data_tail->next);
+				this_phase->data_tail=this_phase->data_tail->next;
+				this_phase->data_tail->next=NULL;
+				this_phase->data_tail->flags=F_FREE;
+				this_phase->data_tail->len=2;
+				p=this_phase->data_tail->data=malloc(2);
+				p[0]=gb18030_latin1[i].gb >> 8;
+				p[1]=gb18030_latin1[i].gb & 0xFF;
+				this_phase->state.status=NEXTPHASE;
+				return;
+			}
+			gb-=1;
+		}
+	}else if (ucs < gb18030_table[0].beg || ucs > gb18030_table[max].end){
 		this_phase->state.status=DEADEND;
 		return;
 	}else while (max >= min) {
@@ -66,15 +96,16 @@ void cbconv(struct bsdconv_instance *ins){
 			break;
 		}
 	}
-	if(gb18030_table[mid].beg<=ucs && ucs<=gb18030_table[mid].end){
+	if((ucs >= 0x80 && ucs <= 0xFF) || (gb18030_table[mid].beg<=ucs && ucs<=gb18030_table[mid].end)){
+		if(ucs > 0xFF)
+			gb=gb18030_table[mid].off + (ucs - gb18030_table[mid].beg);
+
 		this_phase->state.status=NEXTPHASE;
 		DATA_MALLOC(ins, this_phase->data_tail->next);
 		this_phase->data_tail=this_phase->data_tail->next;
 		this_phase->data_tail->next=NULL;
 		this_phase->data_tail->flags=F_FREE;
 
-		gb=gb18030_table[mid].off + (ucs - gb18030_table[mid].beg);
-
 		this_phase->data_tail->len=4;
 		p=this_phase->data_tail->data=malloc(4);
 
diff --git a/modules/to/_GB18030.txt b/modules/to/_GB18030.txt
index 7d7001b..a67f123 100644
--- a/modules/to/_GB18030.txt
+++ b/modules/to/_GB18030.txt
@@ -19661,7 +19661,6 @@
 017FFD	C250
 017FFE	C251
 017FFF	C252
-0180	81308130
 018000	D2AB
 018001	C0CF
 018002	C253
@@ -19918,7 +19917,6 @@
 0180FD	C4DC
 0180FE	C375
 0180FF	C376
-0181	81308131
 018100	C377
 018101	C378
 018102	D6AC
@@ -20175,7 +20173,6 @@
 0181FD	C560
 0181FE	F4A7
 0181FF	C561
-0182	81308132
 018200	D2A8
 018201	F4A8
 018202	F4A9
@@ -20432,7 +20429,6 @@
 0182FD	C682
 0182FE	C683
 0182FF	C684
-0183	81308133
 018300	C685
 018301	D7C2
 018302	C3AF
@@ -20689,7 +20685,6 @@
 0183FD	DDC4
 0183FE	C84A
 0183FF	C84B
-0184	81308134
 018400	C84C
 018401	DDBD
 018402	C84D
@@ -20946,7 +20941,6 @@
 0184FD	C99C
 0184FE	C99D
 0184FF	DEA3
-0185	81308135
 018500	C99E
 018501	C99F
 018502	C9A0
@@ -21203,7 +21197,6 @@
 0185FD	CC43
 0185FE	CC44
 0185FF	DEBD
-0186	81308136
 018600	CC45
 018601	CC46
 018602	CC47
@@ -21460,7 +21453,6 @@
 0186FD	CD93
 0186FE	B6EA
 0186FF	CD94
-0187	81308137
 018700	CAF1
 018701	CD95
 018702	B7E4
@@ -21717,7 +21709,6 @@
 0187FD	CF83
 0187FE	F3B8
 0187FF	CF84
-0188	81308138
 018800	CF85
 018801	CF86
 018802	CF87
@@ -21974,7 +21965,6 @@
 0188FD	D175
 0188FE	F1D5
 0188FF	D176
-0189	81308139
 018900	D177
 018901	D178
 018902	B9D3
@@ -22231,7 +22221,6 @@
 0189FD	D382
 0189FE	D383
 0189FF	D384
-018A	81308230
 018A00	D1D4
 018A01	D385
 018A02	D386
@@ -22488,7 +22477,6 @@
 018AFD	D659
 018AFE	D65A
 018AFF	D65B
-018B	81308231
 018B00	D65C
 018B01	D65D
 018B02	D65E
@@ -22745,7 +22733,6 @@
 018BFD	B7CC
 018BFE	BFCE
 018BFF	DAC3
-018C	81308232
 018C00	DAC4
 018C01	CBAD
 018C02	DAC5
@@ -23002,7 +22989,6 @@
 018CFD	D990
 018CFE	D991
 018CFF	D992
-018D	81308233
 018D00	D993
 018D01	D994
 018D02	D995
@@ -23259,7 +23245,6 @@
 018DFD	F5D5
 018DFE	DB53
 018DFF	DB54
-018E	81308234
 018E00	DB55
 018E01	DB56
 018E02	DB57
@@ -23516,7 +23501,6 @@
 018EFD	DD58
 018EFE	DD59
 018EFF	DD5A
-018F	81308235
 018F00	DD5B
 018F01	DD5C
 018F02	DD5D
@@ -23773,7 +23757,6 @@
 018FFD	D7B7
 018FFE	DE98
 018FFF	DE99
-0190	81308236
 019000	CDCB
 019001	CBCD
 019002	CACA
@@ -24030,7 +24013,6 @@
 0190FD	B6BC
 0190FE	DBB1
 0190FF	E064
-0191	81308237
 019100	E065
 019101	E066
 019102	B6F5
@@ -24287,7 +24269,6 @@
 0191FD	E257
 0191FE	E258
 0191FF	E259
-0192	81308238
 019200	E25A
 019201	E25B
 019202	E25C
@@ -24544,7 +24525,6 @@
 0192FD	E494
 0192FE	E495
 0192FF	E496
-0193	81308239
 019300	E497
 019301	E498
 019302	E499
@@ -24801,7 +24781,6 @@
 0193FD	E76E
 0193FE	E76F
 0193FF	E770
-0194	81308330
 019400	E771
 019401	E772
 019402	E773
@@ -25058,7 +25037,6 @@
 0194FD	EFAB
 0194FE	C1B4
 0194FF	EFAC
-0195	81308331
 019500	CFFA
 019501	CBF8
 019502	EFAE
@@ -25315,7 +25293,6 @@
 0195FD	C3F6
 0195FE	E3CC
 0195FF	EA5D
-0196	81308332
 019600	B7A7
 019601	B8F3
 019602	BAD2
@@ -25572,7 +25549,6 @@
 0196FD	EB8C
 0196FE	CEED
 0196FF	EB8D
-0197	81308333
 019700	D0E8
 019701	F6AB
 019702	EB8E
@@ -25829,7 +25805,6 @@
 0197FD	ED8F
 0197FE	ED90
 0197FF	ED91
-0198	81308334
 019800	ED92
 019801	ED93
 019802	ED94
@@ -26086,7 +26061,6 @@
 0198FD	EF96
 0198FE	EF97
 0198FF	EF98
-0199	81308335
 019900	EF99
 019901	EF9A
 019902	EF9B
@@ -26343,7 +26317,6 @@
 0199FD	F243
 0199FE	F244
 0199FF	F245
-019A	81308336
 019A00	F246
 019A01	F247
 019A02	F248
@@ -26600,7 +26573,6 @@
 019AFD	F398
 019AFE	F399
 019AFF	F39A
-019B	81308337
 019B00	F39B
 019B01	F39C
 019B02	F39D
@@ -26857,7 +26829,6 @@
 019BFD	F661
 019BFE	F662
 019BFF	F663
-019C	81308338
 019C00	F664
 019C01	F665
 019C02	F666
@@ -27114,7 +27085,6 @@
 019CFD	F85A
 019CFE	F85B
 019CFF	F85C
-019D	81308339
 019D00	F85D
 019D01	F85E
 019D02	F85F
@@ -27371,7 +27341,6 @@
 019DFD	FA9B
 019DFE	FA9C
 019DFF	FA9D
-019E	81308430
 019E00	FA9E
 019E01	FA9F
 019E02	FAA0
@@ -27628,7 +27597,6 @@
 019EFD	FC77
 019EFE	F6BC
 019EFF	FC78
-019F	81308431
 019F00	FC79
 019F01	FC7A
 019F02	FC7B
@@ -27795,71 +27763,6 @@
 019FA3	FD99
 019FA4	FD9A
 019FA5	FD9B
-01A0	81308432
-01A1	81308433
-01A2	81308434
-01A3	81308435
-01A4	A1E8
-01A5	81308436
-01A6	81308437
-01A7	A1EC
-01A8	A1A7
-01A9	81308438
-01AA	81308439
-01AB	81308530
-01AC	81308531
-01AD	81308532
-01AE	81308533
-01AF	81308534
-01B0	A1E3
-01B1	A1C0
-01B2	81308535
-01B3	81308536
-01B4	81308537
-01B5	81308538
-01B6	81308539
-01B7	A1A4
-01B8	81308630
-01B9	81308631
-01BA	81308632
-01BB	81308633
-01BC	81308634
-01BD	81308635
-01BE	81308636
-01BF	81308637
-01C0	81308638
-01C1	81308639
-01C2	81308730
-01C3	81308731
-01C4	81308732
-01C5	81308733
-01C6	81308734
-01C7	81308735
-01C8	81308736
-01C9	81308737
-01CA	81308738
-01CB	81308739
-01CC	81308830
-01CD	81308831
-01CE	81308832
-01CF	81308833
-01D0	81308834
-01D1	81308835
-01D2	81308836
-01D3	81308837
-01D4	81308838
-01D5	81308839
-01D6	81308930
-01D7	A1C1
-01D8	81308931
-01D9	81308932
-01DA	81308933
-01DB	81308934
-01DC	81308935
-01DD	81308936
-01DE	81308937
-01DF	81308938
-01E0	A8A4
 01E000	AAA1
 01E001	AAA2
 01E002	AAA3
@@ -28116,7 +28019,6 @@
 01E0FD	ACE2
 01E0FE	ACE3
 01E0FF	ACE4
-01E1	A8A2
 01E100	ACE5
 01E101	ACE6
 01E102	ACE7
@@ -28373,7 +28275,6 @@
 01E1FD	AFC8
 01E1FE	AFC9
 01E1FF	AFCA
-01E2	81308939
 01E200	AFCB
 01E201	AFCC
 01E202	AFCD
@@ -28630,7 +28531,6 @@
 01E2FD	FAAE
 01E2FE	FAAF
 01E2FF	FAB0
-01E3	81308A30
 01E300	FAB1
 01E301	FAB2
 01E302	FAB3
@@ -28887,7 +28787,6 @@
 01E3FD	FCF2
 01E3FE	FCF3
 01E3FF	FCF4
-01E4	81308A31
 01E400	FCF5
 01E401	FCF6
 01E402	FCF7
@@ -29144,7 +29043,6 @@
 01E4FD	A177
 01E4FE	A178
 01E4FF	A179
-01E5	81308A32
 01E500	A17A
 01E501	A17B
 01E502	A17C
@@ -29401,7 +29299,6 @@
 01E5FD	A457
 01E5FE	A458
 01E5FF	A459
-01E6	81308A33
 01E600	A45A
 01E601	A45B
 01E602	A45C
@@ -29658,7 +29555,6 @@
 01E6FD	A698
 01E6FE	A699
 01E6FF	A69A
-01E7	81308A34
 01E700	A69B
 01E701	A69C
 01E702	A69D
@@ -29915,7 +29811,6 @@
 01E7FD	A9A0
 01E7FE	A9A1
 01E7FF	A9A2
-01E8	A8A8
 01E800	A9A3
 01E801	A9F0
 01E802	A9F1
@@ -30017,23 +29912,6 @@
 01E862	8336CF38
 01E863	8336CF39
 01E864	FEA0
-01E9	A8A6
-01EA	A8BA
-01EB	81308A35
-01EC	A8AC
-01ED	A8AA
-01EE	81308A36
-01EF	81308A37
-01F0	81308A38
-01F1	81308A39
-01F2	A8B0
-01F3	A8AE
-01F4	81308B30
-01F5	81308B31
-01F6	81308B32
-01F7	A1C2
-01F8	81308B33
-01F9	A8B4
 01F92C	FD9C
 01F92D	84308535
 01F92E	84308536
@@ -30246,7 +30124,6 @@
 01F9FD	84309939
 01F9FE	84309A30
 01F9FF	84309A31
-01FA	A8B2
 01FA00	84309A32
 01FA01	84309A33
 01FA02	84309A34
@@ -30289,10 +30166,6 @@
 01FA27	FE4D
 01FA28	FE4E
 01FA29	FE4F
-01FB	81308B34
-01FC	A8B9
-01FD	81308B35
-01FE	81308B36
 01FE30	A955
 01FE31	A6F2
 01FE32	84318538
@@ -30501,7 +30374,6 @@
 01FEFD	84319531
 01FEFE	84319532
 01FEFF	84319533
-01FF	81308B37
 01FF00	84319534
 01FF01	A3A1
 01FF02	A3A2
diff --git a/src/libbsdconv.c b/src/libbsdconv.c
index 950dc6f..0d24f0d 100644
--- a/src/libbsdconv.c
+++ b/src/libbsdconv.c
@@ -611,6 +611,7 @@ void bsdconv(struct bsdconv_instance *ins){
 	FILE *fp;
 	int fd;
 	unsigned char c;
+	offset_t callback;
 	struct bsdconv_phase *prev_phase;
 	struct bsdconv_phase *this_phase;
 	struct bsdconv_codec *this_codec;
@@ -755,6 +756,7 @@ void bsdconv(struct bsdconv_instance *ins){
 			while(this_phase->curr->next){
 				this_phase->curr=this_phase->curr->next;
 				this_phase->state.status=NOMATCH;
+				callback=0;
 				for(this_phase->i=0;this_phase->i<this_phase->curr->len;this_phase->i+=1){
 					c=UCP(this_phase->curr->data)[this_phase->i];
 					offset_t next = get_offset(this_codec, &this_phase->state, c);
@@ -762,6 +764,11 @@ void bsdconv(struct bsdconv_instance *ins){
 						this_phase->offset = next;
 					}else if(!(this_phase->flags & F_LOOPBACK)){
 						this_phase->offset=0;
+					}else if(callback){
+						/* not one of those listed: leave it to the callback */
+						this_phase->offset=callback;
+						this_phase->state=read_state(this_codec, this_phase->offset);
+						break;
 					}
 					this_phase->state=read_state(this_codec, this_phase->offset);
 					switch(this_phase->state.status){
@@ -770,6 +777,7 @@ void bsdconv(struct bsdconv_instance *ins){
 							break;
 						case SUBROUTINE:
 						case SUBMATCH_SUBROUTINE:
+							callback=this_phase->offset;
 							this_phase->flags |= F_LOOPBACK;
 							break;
 					}
@@ -888,6 +896,7 @@ void bsdconv(struct bsdconv_instance *ins){
 			while(this_phase->curr->next){
 				this_phase->curr=this_phase->curr->next;
 				this_phase->state.status=NOMATCH;
+				callback=0;
 				for(this_phase->i=0;this_phase->i<this_phase->curr->len;this_phase->i+=1){
 					c=UCP(this_phase->curr->data)[this_phase->i];
 					offset_t next = get_offset(this_codec, &this_phase->state, c);
@@ -895,6 +904,11 @@ void bsdconv(struct bsdconv_instance *ins){
 						this_phase->offset = next;
 					}else if(!(this_phase->flags & F_LOOPBACK)){
 						this_phase->offset=0;
+					}else if(callback){
+						/* not one of those listed: leave it to the callback */
+						this_phase->offset=callback;
+						this_phase->state=read_state(this_codec, this_phase->offset);
+						break;
 					}
 					this_phase->state=read_state(this_codec, this_phase->offset);
 					switch(this_phase->state.status){
@@ -903,6 +917,7 @@ void bsdconv(struct bsdconv_instance *ins){
 							break;
 						case SUBROUTINE:
 						case SUBMATCH_SUBROUTINE:
+							callback=this_phase->offset;
 							this_phase->flags |= F_LOOPBACK;
 							break;
 					}
-- 
2.43.0


From 7e9e97529bc57b7aaed26cfb1138c22da0ec9e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:15 +0000
Subject: [PATCH 42/94] fix: bsdconv-mktable loses longer keys when a wildcard
 or better fitting key is listed after them

---
 src/bsdconv-mktable.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bsdconv-mktable.c b/src/bsdconv-mktable.c
index 81b22c1..d63e7fa 100644
--- a/src/bsdconv-mktable.c
+++ b/src/bsdconv-mktable.c
@@ -410,7 +410,8 @@ DPRINTF("%p[%X]=%p\n", todo_item->state, c, state_t);
 							todo_item->state->base[c]=state_t;
 						}else{
 							DPRINTF("%p %d -> MATCH for %s\n", todo_item->state->base[c], todo_item->state->base[c]->status, ot);
-							todo_item->state->base[c]->status=MATCH;
+							/* longer keys may already go through this state */
+							todo_item->state->base[c]->status=todo_item->state->base[c]->base ? SUBMATCH : MATCH;
 						}
 					}
 				}else if(callback){
-- 
2.43.0


From 0eca35f6502df6b91434ba8eed81773432e8b61a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:15 +0000
Subject: [PATCH 43/94] fix: data after a partial match no encoder accepts are
 dropped with it

---
 src/libbsdconv.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/libbsdconv.c b/src/libbsdconv.c
index 0d24f0d..79053a0 100644
--- a/src/libbsdconv.c
+++ b/src/libbsdconv.c
@@ -959,7 +959,11 @@ void bsdconv(struct bsdconv_instance *ins){
 							RESET(ins->phase_index);
 							this_codec=THIS_CODEC(ins);
 
-							this_phase->bak=this_phase->curr->next;
+							/* drop one datum only: the rest of a partial match is yet to be encoded */
+							this_phase->bak=prev_phase->data_head->next;
+							while(this_phase->bak!=this_phase->curr && this_phase->bak->len==0)
+								this_phase->bak=this_phase->bak->next;
+							this_phase->bak=this_phase->bak->next;
 							LISTFREE(ins, prev_phase->data_head, this_phase->bak, prev_phase->data_tail);
 							this_phase->bak=this_phase->curr=prev_phase->data_head;
 
-- 
2.43.0


From e4b510187506d63cb5297259e6fcc5b2f09cfbc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:15 +0000
Subject: [PATCH 44/94] fix: an entry with an empty value which begins a longer
 key swallows what follows

---
 src/libbsdconv.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/libbsdconv.c b/src/libbsdconv.c
index 79053a0..e9a54af 100644
--- a/src/libbsdconv.c
+++ b/src/libbsdconv.c
@@ -656,13 +656,13 @@ void bsdconv(struct bsdconv_instance *ins){
 								from_deadend:
 								this_phase->flags &= ~(F_PENDING | F_LOOPBACK);
 								if(this_phase->flags & F_MATCH){
-									if(this_phase->match_data){
+									if(this_phase->match_data || !this_codec->cbflush){
 										LISTCPY_ST(ins, this_phase->data_tail, this_phase->match_data, this_codec->data_z);
 
 										LISTFREE(ins, prev_phase->data_head, this_phase->bak, prev_phase->data_tail);
 										this_phase->curr=prev_phase->data_head;
 										this_phase->i=this_phase->data_head->len;
-									}else if(this_codec->cbflush){
+									}else{
 										this_codec->cbflush(ins);
 
 										/* the bytes after the match are yet to be decoded */
@@ -791,12 +791,12 @@ void bsdconv(struct bsdconv_instance *ins){
 						inter_deadend:
 						this_phase->flags &= ~(F_PENDING | F_LOOPBACK);
 						if(this_phase->flags & F_MATCH){
-							if(this_phase->match_data){
+							if(this_phase->match_data || !this_codec->cbflush){
 								LISTCPY_ST(ins, this_phase->data_tail, this_phase->match_data, this_codec->data_z);
 
 								LISTFREE(ins, prev_phase->data_head, this_phase->bak, prev_phase->data_tail);
 								this_phase->curr=prev_phase->data_head;
-							}else if(this_codec->cbflush){
+							}else{
 								this_codec->cbflush(ins);
 							}
 
@@ -930,12 +930,12 @@ void bsdconv(struct bsdconv_instance *ins){
 						to_deadend:
 						this_phase->flags &= ~(F_PENDING | F_LOOPBACK);
 						if(this_phase->flags & F_MATCH){
-							if(this_phase->match_data){
+							if(this_phase->match_data || !this_codec->cbflush){
 								LISTCPY_ST(ins, this_phase->data_tail, this_phase->match_data, this_codec->data_z);
 
 								LISTFREE(ins, prev_phase->data_head, this_phase->bak, prev_phase->data_tail);
 								this_phase->curr=prev_phase->data_head;
-							}else if(this_codec->cbflush){
+							}else{
 								this_codec->cbflush(ins);
 								/* the datum which could not be matched is yet to be handled */
 								this_phase->curr=prev_phase->data_head;
-- 
2.43.0


From 41e1b7210e074caa4fd2f33dcc1ac072be46e314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:23 +0000
Subject: [PATCH 45/94] fix: from/_UTF-8 accepts F490-F7 sequences over
 U+10FFFF without SUPER

---
 modules/from/_UTF-8.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modules/from/_UTF-8.c b/modules/from/_UTF-8.c
index 315bd8d..565976c 100644
--- a/modules/from/_UTF-8.c
+++ b/modules/from/_UTF-8.c
@@ -65,6 +65,9 @@ void cbdestroy(struct bsdconv_instance *ins){
 	this_phase->state.status=NEXTPHASE;	\
 	t->status = 0;	\
 	uint32_t ucs = be32toh(t->ucs.ucs4);	\
+	if(ucs > 0x10FFFF && !t->super){	\
+		DEADEND();	\
+	}	\
 	if(ucs >= 0xD800 && ucs <= 0xDBFF){	\
 		if(t->cesu){	\
 			if(t->lead_surrogate.ucs4){	\
-- 
2.43.0


From a45c16038bdee9668b952e66d69f1d58f65e7bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:49 +0000
Subject: [PATCH 46/94] fix: escapes of characters below U+0100 lack the
 leading zeros decoders expect (to/ESCAPE)

---
 modules/to/ESCAPE.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/modules/to/ESCAPE.c b/modules/to/ESCAPE.c
index f2b2939..f151386 100644
--- a/modules/to/ESCAPE.c
+++ b/modules/to/ESCAPE.c
@@ -92,7 +92,7 @@ void cbdestroy(struct bsdconv_instance *ins){
 void cbconv(struct bsdconv_instance *ins){
 	struct bsdconv_phase *this_phase=THIS_PHASE(ins);
 	struct my_s *t=THIS_CODEC(ins)->priv;
-	int i;
+	int i, pad;
 	unsigned int u;
 	char *p;
 
@@ -102,11 +102,15 @@ void cbconv(struct bsdconv_instance *ins){
 			this_phase->data_tail=this_phase->data_tail->next;
 			this_phase->data_tail->next=NULL;
 			this_phase->data_tail->flags=F_FREE;
-			this_phase->data_tail->len=(this_phase->curr->len-1)*2+t->prefix.len + t->suffix.len;
+			/* with no suffix to end it, the number must have the four digits decoders look for */
+			pad=(this_phase->curr->len==2 && t->suffix.len==0);
+			this_phase->data_tail->len=(this_phase->curr->len-1+pad)*2+t->prefix.len + t->suffix.len;
 			this_phase->data_tail->data=malloc(this_phase->data_tail->len+1);
 			memcpy(this_phase->data_tail->data, t->prefix.data, t->prefix.len);
 			p=this_phase->data_tail->data+t->prefix.len;
 
+			if(pad)
+				p+=sprintf(p,"00");
 			for(i=1;i<this_phase->curr->len;++i){
 				p+=sprintf(p,"%02X", UCP(this_phase->curr->data)[i]);
 			}
-- 
2.43.0


From cf49174eb204eebf34c43b69c515ce9cbec7c77d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:33 +0000
Subject: [PATCH 47/94] fix: normalization drops data which are not Unicode
 (inter/_NF-HANGUL-DECOMPOSITION)

---
 modules/inter/_NF-HANGUL-DECOMPOSITION.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/modules/inter/_NF-HANGUL-DECOMPOSITION.c b/modules/inter/_NF-HANGUL-DECOMPOSITION.c
index d882516..e922959 100644
--- a/modules/inter/_NF-HANGUL-DECOMPOSITION.c
+++ b/modules/inter/_NF-HANGUL-DECOMPOSITION.c
@@ -32,6 +32,10 @@ void cbconv(struct bsdconv_instance *ins){
 			this_phase->data_tail=this_phase->data_tail->next;
 			this_phase->data_tail->next=NULL;
 		}
+	}else{ //not unicode
+		this_phase->data_tail->next=dup_data_rt(ins, this_phase->curr);
+		this_phase->data_tail=this_phase->data_tail->next;
+		this_phase->data_tail->next=NULL;
 	}
 
 	this_phase->state.status=NEXTPHASE;
-- 
2.43.0


From c8afc6b9938e1df75d1bb7408d061a856d0bebe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:00 +0000
Subject: [PATCH 48/94] fix: destroying a converter which was never initialized
 crashes (inter/_NFC)

---
 modules/inter/_NFC.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modules/inter/_NFC.c b/modules/inter/_NFC.c
index 313d379..35d20b2 100644
--- a/modules/inter/_NFC.c
+++ b/modules/inter/_NFC.c
@@ -17,6 +17,7 @@ int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
 	r->map=bsdconv_create("_NFC-MAP,COUNT#ERR");
 	r->err=bsdconv_counter(r->map, "ERR");
 	r->starter=NULL;
+	r->status=0;
 	r->pending_tail=r->pending_head=malloc(sizeof(struct data_rt));
 	r->pending_head->flags=0;
 	r->pending_tail->next=NULL;
-- 
2.43.0


From 00965d96a2f1c2de0940e5833c723fcbe7e3f030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:24 +0000
Subject: [PATCH 49/94] fix: the PRINT filter takes the control character
 U+001F for a printable one

---
 modules/filter/PRINT.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/filter/PRINT.c b/modules/filter/PRINT.c
index ccdb054..ff87606 100644
--- a/modules/filter/PRINT.c
+++ b/modules/filter/PRINT.c
@@ -1,7 +1,7 @@
 #include "../../src/bsdconv.h"
 
 static const struct uint32_range ranges[] = {
-	{ 0x1F, 0x7E },
+	{ 0x20, 0x7E },
 };
 
 #include "unicode_range.c"
-- 
2.43.0


From f4a8ff0b76ac24bb8011a3e4687edab27534c5b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:24 +0000
Subject: [PATCH 50/94] fix: inter/SCORE adds stale memory for characters
 beyond the end of the score file

---
 modules/inter/SCORE.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modules/inter/SCORE.c b/modules/inter/SCORE.c
index 2dac6b2..b4cf593 100644
--- a/modules/inter/SCORE.c
+++ b/modules/inter/SCORE.c
@@ -105,7 +105,8 @@ void cbconv(struct bsdconv_instance *ins){
 			ucs|=data[i];
 		}
 		fseek(fp, ucs*sizeof(unsigned char), SEEK_SET);
-		fread(&v, sizeof(unsigned char), 1, fp);
+		if(fread(&v, sizeof(unsigned char), 1, fp)!=1)
+			v=0;
 		*(r->counter)+=v;
 	}
 
-- 
2.43.0


From c7aabce540beebead0f48da86260d722ea4a3050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:42 +0000
Subject: [PATCH 51/94] fix: a codec name with bytes outside ASCII is no alias

The alias look-up decodes the name as ASCII and dropped what it could not
decode, so that UTF-8 followed by a stray byte was taken for UTF-8.
---
 src/libbsdconv_module.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libbsdconv_module.c b/src/libbsdconv_module.c
index 8328c02..955d276 100644
--- a/src/libbsdconv_module.c
+++ b/src/libbsdconv_module.c
@@ -66,7 +66,7 @@ char * bsdconv_solve_alias(int type, const char *_codec){
 	ret=ins->output.data;
 	ret[ins->output.len]=0;
 	ct=bsdconv_counter(ins, "ERR");
-	if(*ct>0){
+	if(*ct>0 || *bsdconv_counter(ins, "IERR")>0){
 		free(ret);
 		ret=NULL;
 	}
-- 
2.43.0


From a0797ee0c6bcbe9a62df127902e072d40d0152e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:30 +0000
Subject: [PATCH 52/94] fix: find modules without changing the working
 directory

Looking up or loading a module changed to the module directory and back by
name.  When the working directory had been removed, renamed or was out of
reach, the process was left in the module directory, and other threads saw
the change in any case.  Build the path of the module instead.
---
 src/libbsdconv.c        |  38 ++----------
 src/libbsdconv_filter.c |  16 +----
 src/libbsdconv_module.c | 128 +++++++++++++++++-----------------------
 src/libbsdconv_scorer.c |  16 +----
 4 files changed, 66 insertions(+), 132 deletions(-)

diff --git a/src/libbsdconv.c b/src/libbsdconv.c
index e9a54af..0a88e0a 100644
--- a/src/libbsdconv.c
+++ b/src/libbsdconv.c
@@ -33,10 +33,10 @@ struct bsdconv_instance *bsdconv_unpack(const char *);
 char *bsdconv_pack(struct bsdconv_instance *);
 
 #include "libbsdconv_counter.c"
+#include "libbsdconv_module.c"
 #include "libbsdconv_filter.c"
 #include "libbsdconv_scorer.c"
 #include "libbsdconv_hash.c"
-#include "libbsdconv_module.c"
 #include "libbsdconv_util.c"
 
 static inline int _cbcreate(struct bsdconv_instance *ins, int p, int c){
@@ -129,37 +129,11 @@ int _loadcodec(struct bsdconv_codec *cd, char *path){
 }
 
 int loadcodec(struct bsdconv_codec *cd, int type){
-	char *cwd;
-	char *c;
-	char buf[PATH_MAX+1];
-	char *upper;
-	cwd=getcwd(NULL, 0);
-	if((c=getenv("BSDCONV_PATH"))){
-		chdir(c);
-	}else{
-		chdir(BSDCONV_PATH);
-	}
-	chdir(MODULES_SUBPATH);
-	switch(type){
-		case FROM:
-			chdir("from");
-			break;
-		case INTER:
-			chdir("inter");
-			break;
-		case TO:
-			chdir("to");
-			break;
-	}
-	upper=strdup(cd->desc);
-	strtoupper(upper);
-	REALPATH(upper, buf);
-	chdir(cwd);
-	free(cwd);
-	free(upper);
-	if(!_loadcodec(cd, buf))
-		return 0;
-	return 1;
+	int ret;
+	char *path=module_path(type, cd->desc);
+	ret=_loadcodec(cd, path);
+	free(path);
+	return ret;
 }
 
 void unloadcodec(struct bsdconv_codec *cd){
diff --git a/src/libbsdconv_filter.c b/src/libbsdconv_filter.c
index c346338..444470e 100644
--- a/src/libbsdconv_filter.c
+++ b/src/libbsdconv_filter.c
@@ -1,9 +1,8 @@
 struct bsdconv_filter *load_filter(const char *_name){
 	struct bsdconv_filter *filter;
 
-	char *cwd;
 	char *c;
-	char path[PATH_MAX+1];
+	char *path;
 	char *name;
 
 	if(_name==NULL)
@@ -21,22 +20,13 @@ struct bsdconv_filter *load_filter(const char *_name){
 		free(name);
 		name=c;
 	}
-	cwd=getcwd(NULL, 0);
-	if((c=getenv("BSDCONV_PATH"))){
-		chdir(c);
-	}else{
-		chdir(BSDCONV_PATH);
-	}
-	chdir(MODULES_SUBPATH);
-	chdir("filter");
-	REALPATH(name, path);
-	chdir(cwd);
-	free(cwd);
+	path=module_path(FILTER, name);
 	free(name);
 	strcat(path, "." SHLIBEXT);
 
 	filter=malloc(sizeof(struct bsdconv_filter));
 	filter->so=OPEN_SHAREOBJECT(path);
+	free(path);
 	if(!filter->so){
 		free(filter);
 		return NULL;
diff --git a/src/libbsdconv_module.c b/src/libbsdconv_module.c
index 955d276..7263f39 100644
--- a/src/libbsdconv_module.c
+++ b/src/libbsdconv_module.c
@@ -1,3 +1,43 @@
+/* path of a module, or of the directory of its type if name is NULL; with room to append the shared object suffix */
+static char * module_path(int type, const char *name){
+	const char *base;
+	const char *dir="";
+	char *upper;
+	char *path;
+
+	base=getenv("BSDCONV_PATH");
+	if(base==NULL)
+		base=BSDCONV_PATH;
+	if(*base==0)
+		base=".";
+	switch(type){
+		case FROM:
+			dir="from";
+			break;
+		case INTER:
+			dir="inter";
+			break;
+		case TO:
+			dir="to";
+			break;
+		case FILTER:
+			dir="filter";
+			break;
+		case SCORER:
+			dir="scorer";
+			break;
+	}
+	path=malloc(strlen(base) + strlen("/" MODULES_SUBPATH "/") + strlen(dir) + 1 + (name?strlen(name):0) + strlen("." SHLIBEXT) + 1);
+	sprintf(path, "%s/" MODULES_SUBPATH "/%s", base, dir);
+	if(name){
+		strcat(path, "/");
+		upper=path+strlen(path);
+		strcpy(upper, name);
+		strtoupper(upper);
+	}
+	return path;
+}
+
 int bsdconv_module_vital(int type, const char *codec){
 	switch(type){
 		case FROM:
@@ -80,61 +120,18 @@ int bsdconv_codec_check(int type, const char *_codec){
 
 int bsdconv_module_check(int type, const char *_codec){
 	int ret=0;
-	char *cwd;
-	char *codec=NULL;
+	char *path=module_path(type, _codec);
 	FILE *fp;
-	char *c;
 
-	cwd=getcwd(NULL, 0);
+	if(type==FILTER || type==SCORER)
+		strcat(path, "." SHLIBEXT);
 
-	if((c=getenv("BSDCONV_PATH"))){
-		chdir(c);
-	}else{
-		chdir(BSDCONV_PATH);
-	}
-
-	chdir(MODULES_SUBPATH);
-	switch(type){
-		case FROM:
-			chdir("from");
-			codec=strdup(_codec);
-			strtoupper(codec);
-			break;
-		case INTER:
-			chdir("inter");
-			codec=strdup(_codec);
-			strtoupper(codec);
-			break;
-		case TO:
-			chdir("to");
-			codec=strdup(_codec);
-			strtoupper(codec);
-			break;
-		case FILTER:
-			chdir("filter");
-			codec=malloc(strlen(_codec) + strlen("." SHLIBEXT) + 1);
-			strcpy(codec, _codec);
-			strtoupper(codec);
-			strcat(codec, "." SHLIBEXT);
-			break;
-		case SCORER:
-			chdir("scorer");
-			codec=malloc(strlen(_codec) + strlen("." SHLIBEXT) + 1);
-			strcpy(codec, _codec);
-			strtoupper(codec);
-			strcat(codec, "." SHLIBEXT);
-			break;
-	}
-
-	fp=fopen(codec, "rb");
+	fp=fopen(path, "rb");
 	if(fp!=NULL){
 		fclose(fp);
 		ret=1;
 	}
-	free(codec);
-
-	chdir(cwd);
-	free(cwd);
+	free(path);
 
 	return ret;
 }
@@ -151,44 +148,26 @@ char ** bsdconv_modules_list(int phase_type){
 	char **list=malloc(sizeof(char *) * 8);
 	int size=8;
 	int length=0;
-	char *cwd;
 	char *c;
+	char *path;
 	DIR *dir;
 	struct dirent *d;
 	FILE *fp;
 	char buf[256];
-	const char *type;
-	cwd=getcwd(NULL, 0);
-
-	if((c=getenv("BSDCONV_PATH"))){
-		chdir(c);
-	}else{
-		chdir(BSDCONV_PATH);
-	}
 	list[0]=NULL;
-	chdir(MODULES_SUBPATH);
 	switch(phase_type){
 		case FROM:
-			type="from";
-			break;
 		case INTER:
-			type="inter";
-			break;
 		case TO:
-			type="to";
-			break;
 		case FILTER:
-			type="filter";
-			break;
 		case SCORER:
-			type="scorer";
 			break;
 		default:
-			chdir(cwd);
-			free(cwd);
 			return list;
 	}
-	dir=opendir(type);
+	path=module_path(phase_type, NULL);
+	dir=opendir(path);
+	free(path);
 	if(dir!=NULL){
 		if(phase_type==FILTER || phase_type==SCORER){
 			while((d=readdir(dir))!=NULL){
@@ -217,8 +196,11 @@ char ** bsdconv_modules_list(int phase_type){
 		}
 		closedir(dir);
 	}
-	chdir(type);
-	fp=fopen("alias","rb");
+	path=module_path(phase_type, NULL);
+	path=realloc(path, strlen(path) + strlen("/alias") + 1);
+	strcat(path, "/alias");
+	fp=fopen(path,"rb");
+	free(path);
 	if(fp!=NULL){
 		while(fgets(buf, sizeof(buf), fp)!=NULL){
 			if(buf[0]=='#')
@@ -239,7 +221,5 @@ char ** bsdconv_modules_list(int phase_type){
 	}
 	qsort(list, length, sizeof(char *), scmp);
 	list[length]=NULL;
-	chdir(cwd);
-	free(cwd);
 	return list;
 }
diff --git a/src/libbsdconv_scorer.c b/src/libbsdconv_scorer.c
index 496a013..d158406 100644
--- a/src/libbsdconv_scorer.c
+++ b/src/libbsdconv_scorer.c
@@ -1,9 +1,8 @@
 struct bsdconv_scorer *load_scorer(const char *_name){
 	struct bsdconv_scorer *scorer;
 
-	char *cwd;
 	char *c;
-	char path[PATH_MAX+1];
+	char *path;
 	char *name;
 
 	if(_name==NULL)
@@ -21,22 +20,13 @@ struct bsdconv_scorer *load_scorer(const char *_name){
 		free(name);
 		name=c;
 	}
-	cwd=getcwd(NULL, 0);
-	if((c=getenv("BSDCONV_PATH"))){
-		chdir(c);
-	}else{
-		chdir(BSDCONV_PATH);
-	}
-	chdir(MODULES_SUBPATH);
-	chdir("scorer");
-	REALPATH(name, path);
-	chdir(cwd);
-	free(cwd);
+	path=module_path(SCORER, name);
 	free(name);
 	strcat(path, "." SHLIBEXT);
 
 	scorer=malloc(sizeof(struct bsdconv_scorer));
 	scorer->so=OPEN_SHAREOBJECT(path);
+	free(path);
 	if(!scorer->so){
 		free(scorer);
 		return NULL;
-- 
2.43.0


From f9036ee17692216df2927e3542dc383df22c737f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:50 +0000
Subject: [PATCH 53/94] fix: a path is no codec name

Names like ./UPPER were accepted, and the module check said yes to a
directory.
---
 src/libbsdconv_module.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/libbsdconv_module.c b/src/libbsdconv_module.c
index 7263f39..b0ab742 100644
--- a/src/libbsdconv_module.c
+++ b/src/libbsdconv_module.c
@@ -120,9 +120,14 @@ int bsdconv_codec_check(int type, const char *_codec){
 
 int bsdconv_module_check(int type, const char *_codec){
 	int ret=0;
-	char *path=module_path(type, _codec);
+	char *path;
 	FILE *fp;
 
+	/* a name, not a path */
+	if(*_codec=='.' || strchr(_codec, '/')!=NULL)
+		return 0;
+
+	path=module_path(type, _codec);
 	if(type==FILTER || type==SCORER)
 		strcat(path, "." SHLIBEXT);
 
-- 
2.43.0


From 9b6edb23f7e2cf5baba901c95f2ab5b791aef832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:50 +0000
Subject: [PATCH 54/94] fix: pack a conversion made of one transformation apart
 from the one before

a:b|upper was packed as a:b:upper, which is another conversion, and any alias
in such a string made it be parsed again from the wrong packed form.
---
 src/libbsdconv.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/libbsdconv.c b/src/libbsdconv.c
index 0a88e0a..2e75ba5 100644
--- a/src/libbsdconv.c
+++ b/src/libbsdconv.c
@@ -207,6 +207,7 @@ char *bsdconv_pack(struct bsdconv_instance *ins){
 	const char *end;
 	int len=0;
 	int i, j, n;
+	int open=0; /* between FROM and TO */
 	for(i=1;i<=ins->phasen;++i){
 		for(j=0;j<=ins->phase[i].codecn;++j){
 			len+=strlen(ins->phase[i].codec[j].desc);
@@ -233,11 +234,15 @@ char *bsdconv_pack(struct bsdconv_instance *ins){
 							strcat(ret, "|");
 							break;
 						case INTER:
+							strcat(ret, open ? ":" : "|");
+							break;
 						case TO:
 							strcat(ret, ":");
 						break;
 					}
 				}
+				if(ins->phase[i].type!=INTER)
+					open=(ins->phase[i].type==FROM);
 			}else{
 				strcat(ret, ",");
 			}
-- 
2.43.0


From 06e506036da563f60cda177700ea292db6756471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:21 +0000
Subject: [PATCH 55/94] fix: REPLACE without a pattern is refused instead of
 crashing when converting

---
 modules/inter/REPLACE.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/modules/inter/REPLACE.c b/modules/inter/REPLACE.c
index d5d8dd5..6e610bb 100644
--- a/modules/inter/REPLACE.c
+++ b/modules/inter/REPLACE.c
@@ -36,6 +36,10 @@ int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
 		}
 		arg=arg->next;
 	}
+	if(r->from==NULL){
+		free(r);
+		return EINVAL;
+	}
 	THIS_CODEC(ins)->priv=r;
 	return 0;
 }
-- 
2.43.0


From 0e13497cbb5906fb3cb8c4990129213c9e9094c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:21 +0000
Subject: [PATCH 56/94] fix: several aliases in a row are no alias

---
 src/libbsdconv_module.c | 55 ++++++++++++++++++++++++++++-------------
 1 file changed, 38 insertions(+), 17 deletions(-)

diff --git a/src/libbsdconv_module.c b/src/libbsdconv_module.c
index b0ab742..bdd8b79 100644
--- a/src/libbsdconv_module.c
+++ b/src/libbsdconv_module.c
@@ -68,11 +68,32 @@ int bsdconv_module_vital(int type, const char *codec){
 	return 0;
 }
 
-char * bsdconv_solve_alias(int type, const char *_codec){
+static char * lookup_alias(struct bsdconv_instance *ins, const char *name, size_t len){
 	char *ret;
+	bsdconv_counter_reset(ins, NULL);
+	bsdconv_init(ins);
+	ins->output_mode=BSDCONV_AUTOMALLOC;
+	ins->output.len=1;
+	ins->input.data=(char *)name;
+	ins->input.len=len;
+	ins->input.flags=0;
+	ins->input.next=NULL;
+	ins->flush=1;
+	bsdconv(ins);
+	ret=ins->output.data;
+	ret[ins->output.len]=0;
+	if(*bsdconv_counter(ins, "ERR")>0 || *bsdconv_counter(ins, "IERR")>0){
+		free(ret);
+		ret=NULL;
+	}
+	return ret;
+}
+
+char * bsdconv_solve_alias(int type, const char *_codec){
+	char *ret, *head, *tail;
 	char *codec;
+	size_t i, len;
 	struct bsdconv_instance *ins;
-	bsdconv_counter_t *ct;
 	switch(type){
 		case FROM:
 			ins=bsdconv_create("ASCII:ALIAS-FROM,COUNT#ERR:ASCII");
@@ -94,22 +115,22 @@ char * bsdconv_solve_alias(int type, const char *_codec){
 	}
 	codec=strdup(_codec);
 	strtoupper(codec);
-	bsdconv_init(ins);
-	ins->output_mode=BSDCONV_AUTOMALLOC;
-	ins->output.len=1;
-	ins->input.data=codec;
-	ins->input.len=strlen(codec);
-	ins->input.flags=F_FREE;
-	ins->input.next=NULL;
-	ins->flush=1;
-	bsdconv(ins);
-	ret=ins->output.data;
-	ret[ins->output.len]=0;
-	ct=bsdconv_counter(ins, "ERR");
-	if(*ct>0 || *bsdconv_counter(ins, "IERR")>0){
-		free(ret);
-		ret=NULL;
+	len=strlen(codec);
+	ret=lookup_alias(ins, codec, len);
+	/* several aliases in a row are no alias */
+	for(i=1;ret!=NULL && i<len;++i){
+		if((head=lookup_alias(ins, codec, i))==NULL)
+			continue;
+		if((tail=lookup_alias(ins, codec+i, len-i))!=NULL){
+			if(strncmp(ret, head, strlen(head))==0 && strcmp(ret+strlen(head), tail)==0){
+				free(ret);
+				ret=NULL;
+			}
+			free(tail);
+		}
+		free(head);
 	}
+	free(codec);
 	bsdconv_destroy(ins);
 	return ret;
 }
-- 
2.43.0


From 282b263d1534ab0ee6e70d89c3a3ed7045fae850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:16 +0000
Subject: [PATCH 57/94] fix: a codec whose callbacks cannot be loaded is
 refused instead of crashing

---
 src/libbsdconv.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/libbsdconv.c b/src/libbsdconv.c
index 2e75ba5..bd1d3ba 100644
--- a/src/libbsdconv.c
+++ b/src/libbsdconv.c
@@ -98,7 +98,11 @@ int _loadcodec(struct bsdconv_codec *cd, char *path){
 		SetLastError(EOPNOTSUPP);
 		return 0;
 	}
-	fstat(cd->fd, &stat);
+	if(fstat(cd->fd, &stat)!=0){
+		close(cd->fd);
+		SetLastError(EOPNOTSUPP);
+		return 0;
+	}
 	cd->maplen=stat.st_size;
 	if((cd->data_z=cd->z=mmap(0, stat.st_size, PROT_READ, MAP_PRIVATE | MAP_PREFAULT_READ, cd->fd, 0))==MAP_FAILED){
 		close(cd->fd);
@@ -124,6 +128,15 @@ int _loadcodec(struct bsdconv_codec *cd, char *path){
 		cd->cbctl=SHAREOBJECT_SYMBOL(cd->dl,"cbctl");
 		cd->cbdestroy=SHAREOBJECT_SYMBOL(cd->dl,"cbdestroy");
 	}
+#ifndef WIN32
+	else if(access(path, F_OK)==0 || errno!=ENOENT){
+		/* it has callbacks, but they cannot be loaded */
+		munmap(cd->z, cd->maplen);
+		close(cd->fd);
+		SetLastError(EOPNOTSUPP);
+		return 0;
+	}
+#endif
 
 	return 1;
 }
-- 
2.43.0


From 07ca68f0d10dfcafc1f895aee6cb6b5835db6304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:16 +0000
Subject: [PATCH 58/94] fix: a codec whose helper conversion cannot be created
 is refused instead of crashing

---
 modules/inter/ALIAS-FROM.c  | 3 +++
 modules/inter/ALIAS-INTER.c | 3 +++
 modules/inter/_NFC.c        | 5 +++++
 3 files changed, 11 insertions(+)

diff --git a/modules/inter/ALIAS-FROM.c b/modules/inter/ALIAS-FROM.c
index e9c9844..b24fece 100644
--- a/modules/inter/ALIAS-FROM.c
+++ b/modules/inter/ALIAS-FROM.c
@@ -1,3 +1,4 @@
+#include <errno.h>
 #include <stdlib.h>
 #include <string.h>
 #include "../../src/bsdconv.h"
@@ -5,6 +6,8 @@
 
 int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
 	THIS_CODEC(ins)->priv=bsdconv_create("ASCII:PASS");
+	if(THIS_CODEC(ins)->priv==NULL)
+		return EOPNOTSUPP;
 	return 0;
 }
 
diff --git a/modules/inter/ALIAS-INTER.c b/modules/inter/ALIAS-INTER.c
index 895e8be..cb4e690 100644
--- a/modules/inter/ALIAS-INTER.c
+++ b/modules/inter/ALIAS-INTER.c
@@ -1,3 +1,4 @@
+#include <errno.h>
 #include <stdlib.h>
 #include <string.h>
 #include "../../src/bsdconv.h"
@@ -5,6 +6,8 @@
 
 int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
 	THIS_CODEC(ins)->priv=bsdconv_create("ASCII:PASS");
+	if(THIS_CODEC(ins)->priv==NULL)
+		return EOPNOTSUPP;
 	return 0;
 }
 
diff --git a/modules/inter/_NFC.c b/modules/inter/_NFC.c
index 35d20b2..e2194b8 100644
--- a/modules/inter/_NFC.c
+++ b/modules/inter/_NFC.c
@@ -1,3 +1,4 @@
+#include <errno.h>
 #include "../../src/bsdconv.h"
 
 #include "_NF-CCC.h"
@@ -15,6 +16,10 @@ struct my_s {
 int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
 	struct my_s *r=THIS_CODEC(ins)->priv=malloc(sizeof(struct my_s));
 	r->map=bsdconv_create("_NFC-MAP,COUNT#ERR");
+	if(r->map==NULL){
+		free(r);
+		return EOPNOTSUPP;
+	}
 	r->err=bsdconv_counter(r->map, "ERR");
 	r->starter=NULL;
 	r->status=0;
-- 
2.43.0


From 01398084a807cf4d65d2475e9554e484270340f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:16 +0000
Subject: [PATCH 59/94] fix: bsdconv -i gives the file arbitrary permissions
 when it cannot read them, and leaves its temporary file when it cannot open
 it

---
 src/bsdconv.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/bsdconv.c b/src/bsdconv.c
index 1baab6f..578f714 100644
--- a/src/bsdconv.c
+++ b/src/bsdconv.c
@@ -138,17 +138,23 @@ int main(int argc, char *argv[]){
 			otf=fdopen(fd, "wb");
 			if(!otf){
 				fprintf(stderr, "Unable to open output file for %s\n", argv[i]);
+				unlink(tmp);
 				bsdconv_destroy(ins);
 				exit(1);
 			}
+			int e=0;
 #ifndef WIN32
 			struct stat stat;
-			fstat(fileno(inf), &stat);
-			fchown(fileno(otf), stat.st_uid, stat.st_gid);
-			fchmod(fileno(otf), stat.st_mode);
+			if(fstat(fileno(inf), &stat)==0){
+				fchown(fileno(otf), stat.st_uid, stat.st_gid);
+				fchmod(fileno(otf), stat.st_mode);
+			}else{
+				e=1;
+			}
 #endif
 			bsdconv_file(ins, inf, otf, argv[i]);
-			int e=ferror(inf) || ferror(otf);
+			if(ferror(inf) || ferror(otf))
+				e=1;
 			fclose(inf);
 			if(fclose(otf)!=0)
 				e=1;
-- 
2.43.0


From 72772992b6df35e7c3aa7803eb7e3c7370497174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:16 +0000
Subject: [PATCH 60/94] fix: the empty name is no module

---
 src/libbsdconv_module.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libbsdconv_module.c b/src/libbsdconv_module.c
index bdd8b79..f6c1c98 100644
--- a/src/libbsdconv_module.c
+++ b/src/libbsdconv_module.c
@@ -145,7 +145,7 @@ int bsdconv_module_check(int type, const char *_codec){
 	FILE *fp;
 
 	/* a name, not a path */
-	if(*_codec=='.' || strchr(_codec, '/')!=NULL)
+	if(*_codec==0 || *_codec=='.' || strchr(_codec, '/')!=NULL)
 		return 0;
 
 	path=module_path(type, _codec);
-- 
2.43.0


From 1052467b6cf7df5d8dd45aedc84dbfee2aa23be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:16 +0000
Subject: [PATCH 61/94] fix: bsdconv reports the counters of earlier files
 again with every file

---
 src/bsdconv.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bsdconv.c b/src/bsdconv.c
index 578f714..b89b8fc 100644
--- a/src/bsdconv.c
+++ b/src/bsdconv.c
@@ -44,6 +44,7 @@ void list_modules(){
 void bsdconv_file(struct bsdconv_instance *ins, FILE *in, FILE *out, const char *filename){
 	char *ib;
 	bsdconv_init(ins);
+	bsdconv_counter_reset(ins, NULL);
 	do{
 		ib=bsdconv_malloc(IBUFLEN);
 		ins->input.data=ib;
-- 
2.43.0


From 477e8c096dd5edaa5f7598905db32ff9f305268d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:16 +0000
Subject: [PATCH 62/94] fix: bsdconv returns success when it could not read its
 input or write its output

---
 src/bsdconv.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/bsdconv.c b/src/bsdconv.c
index b89b8fc..400b55a 100644
--- a/src/bsdconv.c
+++ b/src/bsdconv.c
@@ -119,6 +119,11 @@ int main(int argc, char *argv[]){
 
 	if(i>=argc){
 		bsdconv_file(ins, stdin, stdout, NULL);
+		if(ferror(stdin)){
+			fprintf(stderr, "Failed reading input.\n");
+			bsdconv_destroy(ins);
+			exit(1);
+		}
 	}else for(;i<argc;++i){
 		if(inplace){
 			inf=fopen(argv[i],"rb");
@@ -180,10 +185,21 @@ int main(int argc, char *argv[]){
 				exit(1);
 			}
 			bsdconv_file(ins, inf, stdout, argv[i]);
+			int e=ferror(inf);
 			fclose(inf);
+			if(e){
+				fprintf(stderr, "Failed reading file %s.\n", argv[i]);
+				bsdconv_destroy(ins);
+				exit(1);
+			}
 		}
 	}
 	bsdconv_destroy(ins);
 
+	if(fflush(stdout)!=0 || ferror(stdout)){
+		fprintf(stderr, "Failed writing output.\n");
+		return 1;
+	}
+
 	return 0;
 }
-- 
2.43.0


From 803fa046f1b76566a457c328ad5c03f16b9e8689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:28 +0000
Subject: [PATCH 63/94] fix: bsdconv-man crashes when asked for an unknown type
 of module

---
 src/bsdconv-man.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/bsdconv-man.c b/src/bsdconv-man.c
index 9028ad0..0c13279 100644
--- a/src/bsdconv-man.c
+++ b/src/bsdconv-man.c
@@ -42,7 +42,6 @@ static int man(char *pc){
 		phase_dir="filter";
 	}else{
 		free(phase);
-		free(codec);
 		return 1;
 	}
 
-- 
2.43.0


From ff29fe052940fd3453c7acbdf3f4bed7979d88f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:28 +0000
Subject: [PATCH 64/94] fix: bsdconv-completion reads before the start of an
 empty argument

---
 src/bsdconv-completion.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bsdconv-completion.c b/src/bsdconv-completion.c
index 8a3aaee..e24606f 100644
--- a/src/bsdconv-completion.c
+++ b/src/bsdconv-completion.c
@@ -32,7 +32,7 @@ int main(int argc, char *argv[]){
 		arg+=1;
 	}
 	i=strlen(arg)-1;
-	if(arg[i]=='\'' || arg[i]=='"'){
+	if(i>=0 && (arg[i]=='\'' || arg[i]=='"')){
 		arg[i]=0;
 	}
 
-- 
2.43.0


From 8418c667966aaa6ba79284f4b41693fc72ebe5bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:54 +0000
Subject: [PATCH 65/94] fix: inter/BIG5-DEFRAG reads past short data and leaves
 the end of its output pointing into the input

---
 modules/inter/BIG5-DEFRAG.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/modules/inter/BIG5-DEFRAG.c b/modules/inter/BIG5-DEFRAG.c
index 4a4834f..ce7e625 100644
--- a/modules/inter/BIG5-DEFRAG.c
+++ b/modules/inter/BIG5-DEFRAG.c
@@ -62,7 +62,7 @@ void cbconv(struct bsdconv_instance *ins){
 	data=this_phase->curr->data;
 
 	if(r->f==0){
-		if(data[0]==0x3 && data[1]>0x7f){
+		if(this_phase->curr->len>1 && data[0]==0x3 && data[1]>0x7f){
 			r->f=1;
 			r->p=dup_data_rt(ins, this_phase->curr);
 			this_phase->state.status=SUBMATCH;
@@ -75,7 +75,7 @@ void cbconv(struct bsdconv_instance *ins){
 			return;
 		}
 	}else if(r->f){
-		if(data[0]==0x1b){
+		if(this_phase->curr->len>0 && data[0]==0x1b){
 			*(r->r)=dup_data_rt(ins, this_phase->curr);
 			(*(r->r))->next=NULL;
 			r->r=&((*(r->r))->next);
@@ -90,6 +90,7 @@ void cbconv(struct bsdconv_instance *ins){
 
 			this_phase->data_tail->next=dup_data_rt(ins, this_phase->curr);
 			this_phase->data_tail=this_phase->data_tail->next;
+			this_phase->data_tail->next=NULL;
 
 			if(r->q){
 				this_phase->data_tail->next=r->q;
-- 
2.43.0


From 3c13a6014d638e143b5e25225ee283751f86fe5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:54 +0000
Subject: [PATCH 66/94] fix: to/ASCII-HTML-INFO overflows its buffer on
 CNS11643 data with bytes above 7F

---
 modules/to/ASCII-HTML-INFO.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/to/ASCII-HTML-INFO.c b/modules/to/ASCII-HTML-INFO.c
index ef3ade9..5845763 100644
--- a/modules/to/ASCII-HTML-INFO.c
+++ b/modules/to/ASCII-HTML-INFO.c
@@ -93,7 +93,7 @@ void cbconv(struct bsdconv_instance *ins){
 			sprintf(p,"<a href=\"http://www.cns11643.gov.tw/AIDB/query_general_view.do?page=");
 			TAILIZE(p);
 			if(0<len){
-				sprintf(p,"%X",data[0]);
+				sprintf(p,"%X", (unsigned char)data[0]);
 				TAILIZE(p);
 			}
 			sprintf(p,"&code=");
@@ -105,7 +105,7 @@ void cbconv(struct bsdconv_instance *ins){
 			sprintf(p,"\"><img src=\"http://www.cns11643.gov.tw/AIDB/png.do?page=");
 			TAILIZE(p);
 			if(0<len){
-				sprintf(p,"%X",data[0]);
+				sprintf(p,"%X", (unsigned char)data[0]);
 				TAILIZE(p);
 			}
 			sprintf(p,"&code=");
-- 
2.43.0


From dd0206a38268fc4614f46039065ad0b31715560e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:54 +0000
Subject: [PATCH 67/94] fix: bsdconv-mktable crashes on lines without a value
 and reads past malformed keys

---
 src/bsdconv-mktable.c | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/bsdconv-mktable.c b/src/bsdconv-mktable.c
index d63e7fa..01b3e20 100644
--- a/src/bsdconv-mktable.c
+++ b/src/bsdconv-mktable.c
@@ -5,6 +5,7 @@
 #include <sys/types.h>
 #include <stdint.h>
 #include <string.h>
+#include <ctype.h>
 #include "bsdconv.h"
 #include "fmalloc.h"
 #ifndef WIN32
@@ -150,6 +151,17 @@ uintptr_t hash_callback(int *p, uintptr_t l){
 	return hash_q->v;
 }
 
+static int valid_key(const char *s){
+	if(*s=='!') ++s;
+	if(*s==0) return 0;
+	for(;*s;++s){
+		if(*s=='*' || *s==',') continue;
+		if(!isxdigit((unsigned char)s[0]) || !isxdigit((unsigned char)s[1])) return 0;
+		++s;
+	}
+	return 1;
+}
+
 int main(int argc, char *argv[]){
 	int i, j, k, c=0, cu, cl, case_insensitive, level;
 	FILE *fp;
@@ -240,14 +252,11 @@ int main(int argc, char *argv[]){
 		if(inbuf[0]=='#') continue;
 		tmp=inbuf;
 		f=of=strsep((char **)&tmp, "\t ");
-		while(strchr("\t ",*tmp)){
+		if(tmp==NULL || !valid_key(f)) continue;
+		while(*tmp=='\t' || *tmp==' '){
 			++tmp;
 		}
-		if(*tmp){
-			t=ot=strsep((char **)&tmp, "\t\r\n# ");
-		}else{
-			t=ot=NULL;
-		}
+		t=ot=strsep((char **)&tmp, "\t\r\n# ");
 
 		todo=malloc(sizeof(struct states));
 		todo->n=NULL;
-- 
2.43.0


From 8dbd268ca2678340591b7e434195297d8b4acfc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:07 +0000
Subject: [PATCH 68/94] fix: inter/AMBIGUOUS-UNPAD drops U+A000-U+A0FF after an
 ambiguous character

---
 modules/inter/AMBIGUOUS-UNPAD.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/inter/AMBIGUOUS-UNPAD.c b/modules/inter/AMBIGUOUS-UNPAD.c
index 1114ee5..e424674 100644
--- a/modules/inter/AMBIGUOUS-UNPAD.c
+++ b/modules/inter/AMBIGUOUS-UNPAD.c
@@ -46,7 +46,7 @@ void cbconv(struct bsdconv_instance *ins){
 	this_phase->state.status=NEXTPHASE;
 
 	if(this_phase->curr->len>1 && data[0]==0x1){
-		if(r->s==1 && data[1]==0xA0){
+		if(r->s==1 && this_phase->curr->len==2 && data[1]==0xA0){
 			r->s=0;
 			return;
 		}else{
-- 
2.43.0


From 8a76bdcb42fae53297f9b77ed6d36af28a22ef7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:07 +0000
Subject: [PATCH 69/94] fix: inter/AMBIGUOUS-UNPAD drops a no-break space which
 does not follow an ambiguous character

---
 modules/inter/AMBIGUOUS-UNPAD.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/modules/inter/AMBIGUOUS-UNPAD.c b/modules/inter/AMBIGUOUS-UNPAD.c
index e424674..e5d8198 100644
--- a/modules/inter/AMBIGUOUS-UNPAD.c
+++ b/modules/inter/AMBIGUOUS-UNPAD.c
@@ -69,9 +69,7 @@ void cbconv(struct bsdconv_instance *ins){
 						break;
 					}
 			}
-			if(pad && r->dopad){
-				r->s=1;
-			}
+			r->s=(pad && r->dopad);
 		}
 		this_phase->data_tail->next=dup_data_rt(ins, this_phase->curr);
 		this_phase->data_tail=this_phase->data_tail->next;
-- 
2.43.0


From 3d83b4184e055cc6b01afafcb49c37afe533fc45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:07 +0000
Subject: [PATCH 70/94] fix: inter/AMBIGUOUS-UNPAD drops data which are not
 Unicode

---
 modules/inter/AMBIGUOUS-UNPAD.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/modules/inter/AMBIGUOUS-UNPAD.c b/modules/inter/AMBIGUOUS-UNPAD.c
index e5d8198..acb72f2 100644
--- a/modules/inter/AMBIGUOUS-UNPAD.c
+++ b/modules/inter/AMBIGUOUS-UNPAD.c
@@ -71,12 +71,13 @@ void cbconv(struct bsdconv_instance *ins){
 			}
 			r->s=(pad && r->dopad);
 		}
-		this_phase->data_tail->next=dup_data_rt(ins, this_phase->curr);
-		this_phase->data_tail=this_phase->data_tail->next;
-		this_phase->data_tail->next=NULL;
 	}else{
 		r->s=0;
 	}
 
+	this_phase->data_tail->next=dup_data_rt(ins, this_phase->curr);
+	this_phase->data_tail=this_phase->data_tail->next;
+	this_phase->data_tail->next=NULL;
+
 	return;
 }
-- 
2.43.0


From 9d87350e10994125043078cc14e95907ec3fd524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:01 +0000
Subject: [PATCH 71/94] fix: from/ASCII-NUMERIC-HTML-ENTITY rejects decimal
 entities of 1000 digits

---
 modules/from/ASCII-NUMERIC-HTML-ENTITY.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/from/ASCII-NUMERIC-HTML-ENTITY.c b/modules/from/ASCII-NUMERIC-HTML-ENTITY.c
index 6a2449d..a66521a 100644
--- a/modules/from/ASCII-NUMERIC-HTML-ENTITY.c
+++ b/modules/from/ASCII-NUMERIC-HTML-ENTITY.c
@@ -66,7 +66,7 @@ void cbconv(struct bsdconv_instance *ins){
 			return;
 		}
 		if(t->status){
-			++t->status;
+			if(t->status!=999) ++t->status; /* 1000 stands for x */
 			if(t->tbl[(unsigned char)d]==-1) DEADEND();
 			t->buf.i*=t->b;
 			t->buf.i+=t->tbl[(unsigned char)d];
-- 
2.43.0


From 17b6eac443a812f277c910f49b4b19925772740b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:10 +0000
Subject: [PATCH 72/94] fix: from/BSDCONV takes a lone last digit for a byte

---
 modules/from/BSDCONV.c | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/modules/from/BSDCONV.c b/modules/from/BSDCONV.c
index d6f6440..9a88ab1 100644
--- a/modules/from/BSDCONV.c
+++ b/modules/from/BSDCONV.c
@@ -47,7 +47,7 @@ void cbflush(struct bsdconv_instance *ins){
 	this_phase->data_tail=this_phase->data_tail->next;
 	this_phase->data_tail->next=NULL;
 	this_phase->data_tail->data=t->data.data;
-	this_phase->data_tail->len=t->data.len;
+	this_phase->data_tail->len=t->data.len-(t->flag==F_B); /* without a lone last digit */
 	this_phase->data_tail->flags=F_FREE;
 	t->data.data=NULL;
 	t->flag=F_CLEAR;
@@ -67,7 +67,7 @@ void cbconv(struct bsdconv_instance *ins){
 			this_phase->data_tail=this_phase->data_tail->next;
 			this_phase->data_tail->next=NULL;
 			this_phase->data_tail->data=t->data.data;
-			this_phase->data_tail->len=t->data.len;
+			this_phase->data_tail->len=t->data.len-(t->flag==F_B); /* without a lone last digit */
 			this_phase->data_tail->flags=F_FREE;
 
 			LISTFREE(ins, prev_phase->data_head,this_phase->bak,prev_phase->data_tail);
@@ -90,11 +90,6 @@ void cbconv(struct bsdconv_instance *ins){
 			t->size=0;
 		}
 
-		if(t->data.len)
-			this_phase->state.status=SUBMATCH;
-		else
-			this_phase->state.status=CONTINUE;
-
 		switch(t->flag){
 			case F_A:
 				if(t->data.len >= t->size){
@@ -104,11 +99,13 @@ void cbconv(struct bsdconv_instance *ins){
 				CP(t->data.data)[t->data.len]=hex[(unsigned char)d];
 				t->data.len+=1;
 				t->flag=F_B;
+				this_phase->state.status=CONTINUE;
 				break;
 			case F_B:
 				CP(t->data.data)[t->data.len-1]<<=4;
 				CP(t->data.data)[t->data.len-1]|=hex[(unsigned char)d];
 				t->flag=F_A;
+				this_phase->state.status=SUBMATCH;
 				break;
 		}
 	}
-- 
2.43.0


From 004e96a18b9beef113e8f51b344e6e43631abc42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:46 +0000
Subject: [PATCH 73/94] fix: the HTML entity of U+2203 is &exist; (from and
 to/ASCII-NAMED-HTML-ENTITY)

---
 modules/from/ASCII-NAMED-HTML-ENTITY.txt | 2 +-
 modules/to/ASCII-NAMED-HTML-ENTITY.txt   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/from/ASCII-NAMED-HTML-ENTITY.txt b/modules/from/ASCII-NAMED-HTML-ENTITY.txt
index cfc6f1c..a71a244 100644
--- a/modules/from/ASCII-NAMED-HTML-ENTITY.txt
+++ b/modules/from/ASCII-NAMED-HTML-ENTITY.txt
@@ -194,7 +194,7 @@
 !2663726172723B	0121B5
 !26666F72616C6C3B	012200
 !26706172743B	012202
-!266578697374733B	012203
+!2665786973743B	012203
 !26656D7074793B	012205
 !266E61626C613B	012207
 !266973696E3B	012208
diff --git a/modules/to/ASCII-NAMED-HTML-ENTITY.txt b/modules/to/ASCII-NAMED-HTML-ENTITY.txt
index 2207ec3..cf22fd9 100644
--- a/modules/to/ASCII-NAMED-HTML-ENTITY.txt
+++ b/modules/to/ASCII-NAMED-HTML-ENTITY.txt
@@ -194,7 +194,7 @@
 0121B5	2663726172723B
 012200	26666F72616C6C3B
 012202	26706172743B
-012203	266578697374733B
+012203	2665786973743B
 012205	26656D7074793B
 012207	266E61626C613B
 012208	266973696E3B
-- 
2.43.0


From 37247da1976dbed33a424a6606f19e2e9b07c5aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:46 +0000
Subject: [PATCH 74/94] fix: from/ASCII-NAMED-HTML-ENTITY takes double arrows
 (&dArr;) for single ones

---
 modules/from/ASCII-NAMED-HTML-ENTITY.txt | 5 +++++
 modules/to/ASCII-NAMED-HTML-ENTITY.txt   | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/modules/from/ASCII-NAMED-HTML-ENTITY.txt b/modules/from/ASCII-NAMED-HTML-ENTITY.txt
index a71a244..0eb7b70 100644
--- a/modules/from/ASCII-NAMED-HTML-ENTITY.txt
+++ b/modules/from/ASCII-NAMED-HTML-ENTITY.txt
@@ -191,6 +191,11 @@
 !26726172723B	012192
 !26646172723B	012193
 !26686172723B	012194
+266C4172723B	0121D0
+26754172723B	0121D1
+26724172723B	0121D2
+26644172723B	0121D3
+26684172723B	0121D4
 !2663726172723B	0121B5
 !26666F72616C6C3B	012200
 !26706172743B	012202
diff --git a/modules/to/ASCII-NAMED-HTML-ENTITY.txt b/modules/to/ASCII-NAMED-HTML-ENTITY.txt
index cf22fd9..64ea8bd 100644
--- a/modules/to/ASCII-NAMED-HTML-ENTITY.txt
+++ b/modules/to/ASCII-NAMED-HTML-ENTITY.txt
@@ -191,6 +191,11 @@
 012192	26726172723B
 012193	26646172723B
 012194	26686172723B
+0121D0	266C4172723B
+0121D1	26754172723B
+0121D2	26724172723B
+0121D3	26644172723B
+0121D4	26684172723B
 0121B5	2663726172723B
 012200	26666F72616C6C3B
 012202	26706172743B
-- 
2.43.0


From 8bd3cd140899218e7e0709e42045ffca98f0a007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:28 +0000
Subject: [PATCH 75/94] fix: bytes which a codec does not know are skipped
 after from/BSDCONV in a list

---
 src/libbsdconv.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libbsdconv.c b/src/libbsdconv.c
index bd1d3ba..dc5510f 100644
--- a/src/libbsdconv.c
+++ b/src/libbsdconv.c
@@ -737,6 +737,7 @@ void bsdconv(struct bsdconv_instance *ins){
 								this_phase->flags |= F_PENDING;
 								break;
 							case NOOP:
+								this_phase->flags &= ~F_LOOPBACK;
 								goto phase_begin;
 						}
 						this_phase->i+=1;
-- 
2.43.0


From 2a7774a69414d79c922e23abc53f7711732dbf0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:55 +0000
Subject: [PATCH 76/94] fix: from/IBM-93x swallows everything after a byte
 which is no code in double-byte mode

---
 modules/from/EBCDIC.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/modules/from/EBCDIC.c b/modules/from/EBCDIC.c
index cb6dc62..e2f096c 100644
--- a/modules/from/EBCDIC.c
+++ b/modules/from/EBCDIC.c
@@ -28,6 +28,12 @@ void cbconv(struct bsdconv_instance *ins){
 	struct data_st data;
 	unsigned char *c;
 
+	/* the engine stays on a subroutine entry when no code goes on with this byte: it is not part of the last one */
+	if(this_phase->flags & F_LOOPBACK){
+		this_phase->state.status=DEADEND;
+		return;
+	}
+
 	memcpy(&data, (char *)(this_phase->codec[this_phase->index].data_z+(uintptr_t)this_phase->state.data), sizeof(struct data_st));
 	c=UCP(this_phase->codec[this_phase->index].data_z+de_offset(data.data));
 
-- 
2.43.0


From dc30a0dc835eefb7bb31fd7f8e3b5bbd1108abf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:55 +0000
Subject: [PATCH 77/94] fix: to/IBM-93x writes U+000E and U+000F as shift codes

---
 modules/to/EBCDIC.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/modules/to/EBCDIC.c b/modules/to/EBCDIC.c
index 859b7b2..cea84e2 100644
--- a/modules/to/EBCDIC.c
+++ b/modules/to/EBCDIC.c
@@ -65,6 +65,15 @@ void cbconv(struct bsdconv_instance *ins){
 
 	memcpy(&data, (char *)(this_phase->codec[this_phase->index].data_z+(uintptr_t)this_phase->state.data), sizeof(struct data_st));
 
+	/* shift codes are for changing the mode, they can't stand for characters */
+	if(data.len==1){
+		i=*UCP(THIS_CODEC(ins)->data_z+de_offset(data.data));
+		if(i==0x0E || i==0x0F){
+			this_phase->state.status=DEADEND;
+			return;
+		}
+	}
+
 	if(data.len>1 && t->status==0){
 		t->status=1;
 		this_phase->flags |= F_PENDING;
-- 
2.43.0


From f15b3c0742478d871743fd9b82367fb31c48ab81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:19 +0000
Subject: [PATCH 78/94] fix: from/_JIS drops the first half of a code which an
 escape sequence follows

---
 modules/from/_JIS.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/modules/from/_JIS.c b/modules/from/_JIS.c
index 4c30ba2..af8450e 100644
--- a/modules/from/_JIS.c
+++ b/modules/from/_JIS.c
@@ -70,6 +70,12 @@ void cbconv(struct bsdconv_instance *ins){
 		case 0:
 			switch(d){
 				case 0x1B:
+					if(r->mode != MODE_ASCII && r->cstate.status == CONTINUE){
+						/* there is half a code before it */
+						r->cstate = read_state(r->mode == MODE_JIS0208 ? &r->jis0208 : &r->jis0212, 0);
+						this_phase->state.status = DEADEND;
+						return;
+					}
 					r->state = 0x1B;
 					this_phase->state.status = CONTINUE;
 					return;
-- 
2.43.0


From be96f1a212d734bc10f23f14420b9ea2beb53395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:19 +0000
Subject: [PATCH 79/94] fix: from/_JIS reads katakana after ESC ( I as Roman
 letters

---
 modules/from/_JIS.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/modules/from/_JIS.c b/modules/from/_JIS.c
index af8450e..a6e03cc 100644
--- a/modules/from/_JIS.c
+++ b/modules/from/_JIS.c
@@ -7,6 +7,7 @@
 enum {
 	MODE_ASCII,
 	MODE_JIS0201,
+	MODE_JIS0201_KANA,
 	MODE_JIS0208,
 	MODE_JIS0212,
 };
@@ -87,6 +88,12 @@ void cbconv(struct bsdconv_instance *ins){
 						case MODE_JIS0201:
 							codec = &r->jis0201;
 							break;
+						case MODE_JIS0201_KANA:
+							codec = &r->jis0201;
+							if(d >= 0x21 && d <= 0x5F){
+								d |= 0x80;
+							}
+							break;
 						case MODE_JIS0208:
 							codec = &r->jis0208;
 							break;
@@ -156,7 +163,7 @@ void cbconv(struct bsdconv_instance *ins){
 						return;
 					case 0x49:
 						r->state = 0;
-						r->mode = MODE_JIS0201;
+						r->mode = MODE_JIS0201_KANA;
 						r->cstate = read_state(&r->jis0201, 0);
 						this_phase->state.status = NEXTPHASE;
 						return;
-- 
2.43.0


From c68863d54978336f1ef25ddb6f4e1979a81a9445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:19 +0000
Subject: [PATCH 80/94] fix: from/_JIS takes ESC ( $ D instead of ESC $ ( D for
 JIS X 0212

---
 modules/from/_JIS.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/modules/from/_JIS.c b/modules/from/_JIS.c
index a6e03cc..504b624 100644
--- a/modules/from/_JIS.c
+++ b/modules/from/_JIS.c
@@ -132,6 +132,10 @@ void cbconv(struct bsdconv_instance *ins){
 				break;
 			case 0x1B24:
 				switch(d){
+					case 0x28:
+						r->state = 0x1B2428;
+						this_phase->state.status = CONTINUE;
+						return;
 					case 0x40:
 						r->state = 0;
 						r->mode = MODE_JIS0208; //1978
@@ -152,10 +156,6 @@ void cbconv(struct bsdconv_instance *ins){
 				break;
 			case 0x1B28:
 				switch(d){
-					case 0x24:
-						r->state = 0x1B2824;
-						this_phase->state.status = CONTINUE;
-						return;
 					case 0x42:
 						r->state = 0;
 						r->mode = MODE_ASCII;
@@ -179,7 +179,7 @@ void cbconv(struct bsdconv_instance *ins){
 						return;
 				}
 				break;
-			case 0x1B2824:
+			case 0x1B2428:
 				switch(d){
 					case 0x44:
 						r->state = 0;
-- 
2.43.0


From fe3ca53c5738005694cd723aa30238d98e4fa160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:19 +0000
Subject: [PATCH 81/94] fix: from/ANSI-CONTROL goes on past the end of
 sequences like ESC [ 3 ~

---
 modules/from/ANSI-CONTROL.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/from/ANSI-CONTROL.c b/modules/from/ANSI-CONTROL.c
index 80f372a..1197a45 100644
--- a/modules/from/ANSI-CONTROL.c
+++ b/modules/from/ANSI-CONTROL.c
@@ -39,7 +39,7 @@ void cbconv(struct bsdconv_instance *ins){
 		*(t->p)=d;
 		t->p+=1;
 		this_phase->state.status=CONTINUE;
-		if((d>='a' && d<='z') || (d>='A' && d<='N') || (d>='P' && d<='Z') || (t->p - t->buf)==30 || ((t->p - t->buf)==2 && d!='[')){
+		if((d>='@' && d<='~' && ((t->p - t->buf)!=2 || d!='[')) || (t->p - t->buf)==30 || ((t->p - t->buf)==2 && d!='[')){
 			DATA_MALLOC(ins, this_phase->data_tail->next);
 			this_phase->data_tail=this_phase->data_tail->next;
 			this_phase->data_tail->next=NULL;
-- 
2.43.0


From 593221396f53caf3fc6b4c09bd7c1bfa3410e28d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:19 +0000
Subject: [PATCH 82/94] fix: from/ANSI-CONTROL ends sequences like ESC ( B one
 byte early

---
 modules/from/ANSI-CONTROL.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/from/ANSI-CONTROL.c b/modules/from/ANSI-CONTROL.c
index 1197a45..95209e8 100644
--- a/modules/from/ANSI-CONTROL.c
+++ b/modules/from/ANSI-CONTROL.c
@@ -39,7 +39,7 @@ void cbconv(struct bsdconv_instance *ins){
 		*(t->p)=d;
 		t->p+=1;
 		this_phase->state.status=CONTINUE;
-		if((d>='@' && d<='~' && ((t->p - t->buf)!=2 || d!='[')) || (t->p - t->buf)==30 || ((t->p - t->buf)==2 && d!='[')){
+		if((t->p - t->buf)==30 || ((t->p - t->buf)==2 ? d!='[' && (d<' ' || d>'/') : t->buf[1]=='[' ? d>='@' && d<='~' : d<' ' || d>'/')){
 			DATA_MALLOC(ins, this_phase->data_tail->next);
 			this_phase->data_tail=this_phase->data_tail->next;
 			this_phase->data_tail->next=NULL;
-- 
2.43.0


From 767b3c6d6be8bea0d9634120c08cfbd1220a0e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:19 +0000
Subject: [PATCH 83/94] fix: from/ANSI-CONTROL cuts sequences after 30 bytes

---
 modules/from/ANSI-CONTROL.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/modules/from/ANSI-CONTROL.c b/modules/from/ANSI-CONTROL.c
index 95209e8..0d095f0 100644
--- a/modules/from/ANSI-CONTROL.c
+++ b/modules/from/ANSI-CONTROL.c
@@ -9,11 +9,12 @@
 struct my_s {
 	char *buf;
 	char *p,f;
+	size_t size;
 };
 
 int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
 	struct my_s *r=malloc(sizeof(struct my_s));
-	r->buf=malloc(32);
+	r->buf=malloc(r->size=32);
 	THIS_CODEC(ins)->priv=r;
 	return 0;
 }
@@ -36,10 +37,15 @@ void cbconv(struct bsdconv_instance *ins){
 	char d=CP(this_phase->curr->data)[this_phase->i];
 
 	if(t->f){
+		if((size_t)(t->p - t->buf)==t->size){
+			t->buf=realloc(t->buf, t->size*2);
+			t->p=t->buf+t->size;
+			t->size*=2;
+		}
 		*(t->p)=d;
 		t->p+=1;
 		this_phase->state.status=CONTINUE;
-		if((t->p - t->buf)==30 || ((t->p - t->buf)==2 ? d!='[' && (d<' ' || d>'/') : t->buf[1]=='[' ? d>='@' && d<='~' : d<' ' || d>'/')){
+		if(((t->p - t->buf)==2 ? d!='[' && (d<' ' || d>'/') : t->buf[1]=='[' ? d>='@' && d<='~' : d<' ' || d>'/')){
 			DATA_MALLOC(ins, this_phase->data_tail->next);
 			this_phase->data_tail=this_phase->data_tail->next;
 			this_phase->data_tail->next=NULL;
@@ -48,7 +54,7 @@ void cbconv(struct bsdconv_instance *ins){
 			this_phase->state.status=NEXTPHASE;
 			this_phase->data_tail->data=t->buf;
 			t->f=0;
-			t->buf=malloc(32);
+			t->buf=malloc(t->size=32);
 			t->p=t->buf;
 		}
 	}else if(d==0x1b){
-- 
2.43.0


From afe67902e586bfe027322f127ef2e5dea3af4c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:03 +0000
Subject: [PATCH 84/94] fix: bsdconv-mktable writes uninitialised stack bytes
 into tables

---
 src/bsdconv-mktable.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bsdconv-mktable.c b/src/bsdconv-mktable.c
index 01b3e20..f2b4ed5 100644
--- a/src/bsdconv-mktable.c
+++ b/src/bsdconv-mktable.c
@@ -455,6 +455,7 @@ DPRINTF("%p[%X]=%p\n", todo_item->state, c, state_t);
 		fprintf(stderr, "Failed opening input file %s.\n", argv[1]);
 		exit(1);
 	}
+	memset(&dstate, 0, sizeof(dstate));	//padding is written too
 	state_t=state_r;
 	data_p=NULL;
 	while(state_t){
-- 
2.43.0


From 1f7dae51dee018c81cedab45d43f645e070b16fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:03 +0000
Subject: [PATCH 85/94] fix: bsdconv-mktable splits lines longer than 1023
 characters

---
 src/bsdconv-mktable.c | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/bsdconv-mktable.c b/src/bsdconv-mktable.c
index f2b4ed5..0060687 100644
--- a/src/bsdconv-mktable.c
+++ b/src/bsdconv-mktable.c
@@ -162,11 +162,27 @@ static int valid_key(const char *s){
 	return 1;
 }
 
+/* a whole line however long it is, NULL at end of file */
+static char *read_line(FILE *fp){
+	static char *buf=NULL;
+	static size_t size=0;
+	size_t len=0;
+	do{
+		if(size<len+1024){
+			size=size*2+1024;
+			buf=realloc(buf, size);
+		}
+		if(!fgets(buf+len, size-len, fp)) break;
+		len+=strlen(buf+len);
+	}while(len==0 || buf[len-1]!='\n');
+	return len ? buf : NULL;
+}
+
 int main(int argc, char *argv[]){
 	int i, j, k, c=0, cu, cl, case_insensitive, level;
 	FILE *fp;
-	char inbuf[1024], *f, *t, *tmp, *of, *ot;
-	int dat[1024];
+	char *inbuf, *f, *t, *tmp, *of, *ot;
+	int *dat=NULL;
 	offset_t sub[257];
 	uintptr_t l;
 	struct m_data_st *data_r=NULL, *data_p=NULL, *data_q=NULL, *data_t=NULL;
@@ -248,7 +264,7 @@ int main(int argc, char *argv[]){
 	holder.base=calloc(257, sizeof(struct m_state_st *));
 	holder.base[0]=state_r;
 
-	while(fgets((char *)inbuf, 1024, fp)){
+	while((inbuf=read_line(fp))!=NULL){
 		if(inbuf[0]=='#') continue;
 		tmp=inbuf;
 		f=of=strsep((char **)&tmp, "\t ");
@@ -340,6 +356,7 @@ DPRINTF("%p[%X]=%p\n", todo_item->state, c, state_t);
 		//parse output data
 		j=0;
 		l=0;
+		dat=realloc(dat, (strlen(t)+1)*sizeof(int));
 		callback=0;
 		if(*t=='?'){
 			t+=1;
@@ -438,6 +455,7 @@ DPRINTF("%p[%X]=%p\n", todo_item->state, c, state_t);
 		todo=NULL;
 	}
 	free(newtodo);
+	free(dat);
 	fclose(fp);
 	free(holder.base);
 
-- 
2.43.0


From b562f4a5f2e85ae54bd771accb8fbaecb3d19c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:31 +0000
Subject: [PATCH 86/94] fix: the library prints on standard output when a vital
 module is missing

---
 src/libbsdconv.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/libbsdconv.c b/src/libbsdconv.c
index dc5510f..8d16a58 100644
--- a/src/libbsdconv.c
+++ b/src/libbsdconv.c
@@ -415,7 +415,6 @@ struct bsdconv_instance *bsdconv_create(const char *_conversion){
 			for(j=0;j<=ins->phase[i].codecn;++j){
 				if(!bsdconv_module_check(ins->phase[i].type, ins->phase[i].codec[j].desc)){
 					if(bsdconv_module_vital(ins->phase[i].type, ins->phase[i].codec[j].desc)){
-						printf("error %s\n", ins->phase[i].codec[j].desc);
 						for(i=1;i<=ins->phasen;++i){
 							for(j=0;j<=ins->phase[i].codecn;++j){
 								free(ins->phase[i].codec[j].desc);
-- 
2.43.0


From 9dd4b3edb7cb08207d7c0c487134909d259ae8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:16 +0000
Subject: [PATCH 87/94] fix: endless recursion when to/PASS is not installed

---
 src/libbsdconv_module.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/libbsdconv_module.c b/src/libbsdconv_module.c
index f6c1c98..9079127 100644
--- a/src/libbsdconv_module.c
+++ b/src/libbsdconv_module.c
@@ -63,6 +63,9 @@ int bsdconv_module_vital(int type, const char *codec){
 			if(strcasecmp("ASCII", codec)==0){
 				return 1;
 			}
+			if(strcasecmp("PASS", codec)==0){
+				return 1;
+			}
 			break;
 	}
 	return 0;
-- 
2.43.0


From b451eaa9540cfa5763a0258ab7770c7d8b958483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:26 +0000
Subject: [PATCH 88/94] fix: bsdconv-man with a relative BSDCONV_PATH finds no
 aliases and redirections

---
 src/bsdconv-man.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/bsdconv-man.c b/src/bsdconv-man.c
index 0c13279..45d06bd 100644
--- a/src/bsdconv-man.c
+++ b/src/bsdconv-man.c
@@ -46,11 +46,9 @@ static int man(char *pc){
 	}
 
 	path=getCodecDir();
-	chdir(path);
-	chdir(phase_dir);
 
-	codec_filename=malloc(strlen(codec)+5);
-	sprintf(codec_filename, "%s.man", codec);
+	codec_filename=malloc(strlen(path)+strlen(phase_dir)+strlen(codec)+7);
+	sprintf(codec_filename, "%s/%s/%s.man", path, phase_dir, codec);
 	fp=fopen(codec_filename, "rb");
 	if(fp){
 		if(fscanf(fp, ".redirect %s", buf)){
-- 
2.43.0


From bb692bc41f04a3e7ccf32ea7ea175c65f1150143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:27 +0000
Subject: [PATCH 89/94] fix: bsdconv-man takes an empty page for a redirection

---
 src/bsdconv-man.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bsdconv-man.c b/src/bsdconv-man.c
index 45d06bd..fc5e389 100644
--- a/src/bsdconv-man.c
+++ b/src/bsdconv-man.c
@@ -51,7 +51,7 @@ static int man(char *pc){
 	sprintf(codec_filename, "%s/%s/%s.man", path, phase_dir, codec);
 	fp=fopen(codec_filename, "rb");
 	if(fp){
-		if(fscanf(fp, ".redirect %s", buf)){
+		if(fscanf(fp, ".redirect %s", buf)==1){
 			fclose(fp);
 			free(codec_filename);
 			free(phase);
-- 
2.43.0


From 572d6c3e61d2e0fa7c55417daad538e8841a4acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:49 +0000
Subject: [PATCH 90/94] fix: long, blank and tab-less alias lines are listed as
 modules

---
 src/libbsdconv_module.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/libbsdconv_module.c b/src/libbsdconv_module.c
index 9079127..9d33f5b 100644
--- a/src/libbsdconv_module.c
+++ b/src/libbsdconv_module.c
@@ -183,6 +183,7 @@ char ** bsdconv_modules_list(int phase_type){
 	struct dirent *d;
 	FILE *fp;
 	char buf[256];
+	int cont, partial=0;
 	list[0]=NULL;
 	switch(phase_type){
 		case FROM:
@@ -232,13 +233,15 @@ char ** bsdconv_modules_list(int phase_type){
 	free(path);
 	if(fp!=NULL){
 		while(fgets(buf, sizeof(buf), fp)!=NULL){
-			if(buf[0]=='#')
+			c=buf;
+			cont=partial;
+			partial=(strchr(buf, '\n')==NULL);
+			if(cont || buf[0]=='#' || strchr(buf, '\t')==NULL)
 				continue;
 			if(length>=size){
 				size+=8;
 				list=realloc(list, sizeof(char *) * size);
 			}
-			c=buf;
 			list[length]=strdup(strsep(&c, "\t"));
 			length+=1;
 		}
-- 
2.43.0


From 11dd9e1f653e526f90efcd9065eed78bde124f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:32 +0000
Subject: [PATCH 91/94] fix: to/ASCII-HTML-UNICODE-IMG overflows its buffer on
 a character of more than 26 bytes

---
 modules/to/ASCII-HTML-UNICODE-IMG.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/modules/to/ASCII-HTML-UNICODE-IMG.c b/modules/to/ASCII-HTML-UNICODE-IMG.c
index 66751d8..bdeb479 100644
--- a/modules/to/ASCII-HTML-UNICODE-IMG.c
+++ b/modules/to/ASCII-HTML-UNICODE-IMG.c
@@ -6,7 +6,7 @@
 #define TAILIZE(p) while(*p){ p++ ;}
 
 void cbconv(struct bsdconv_instance *ins){
-	char *data, *p, buf[128]={0};
+	char *data, *p, *buf;
 	unsigned int len, i;
 	struct bsdconv_phase *this_phase=THIS_PHASE(ins);
 	data=this_phase->curr->data;
@@ -15,10 +15,11 @@ void cbconv(struct bsdconv_instance *ins){
 		return;
 	}
 	this_phase->state.status=NEXTPHASE;
-	p=buf;
 	i=*data;
 	data+=1;
 	len=this_phase->curr->len-1;
+	buf=malloc(128+len*2);
+	p=buf;
 	DATA_MALLOC(ins, this_phase->data_tail->next);
 	this_phase->data_tail=this_phase->data_tail->next;
 	this_phase->data_tail->next=NULL;
@@ -38,8 +39,7 @@ void cbconv(struct bsdconv_instance *ins){
 	len=p-buf;
 	this_phase->data_tail->len=len;
 	this_phase->data_tail->flags=F_FREE;
-	this_phase->data_tail->data=malloc(len);
-	memcpy(this_phase->data_tail->data, buf, len);
+	this_phase->data_tail->data=buf;
 
 	return;
 }
-- 
2.43.0


From 218c57b0d32d01be132086bd7d9aacb6884a2795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:57 +0000
Subject: [PATCH 92/94] fix: bsdconv-man overflows its buffer on a long
 redirection

---
 src/bsdconv-man.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bsdconv-man.c b/src/bsdconv-man.c
index fc5e389..4d64116 100644
--- a/src/bsdconv-man.c
+++ b/src/bsdconv-man.c
@@ -14,7 +14,7 @@ static int man(char *pc){
 	char *path;
 	char *phase_dir=NULL;
 	int iphase=0;
-	char buf[BUFSIZ];
+	char buf[8192];
 	size_t len;
 	FILE *fp;
 
@@ -51,7 +51,7 @@ static int man(char *pc){
 	sprintf(codec_filename, "%s/%s/%s.man", path, phase_dir, codec);
 	fp=fopen(codec_filename, "rb");
 	if(fp){
-		if(fscanf(fp, ".redirect %s", buf)==1){
+		if(fscanf(fp, ".redirect %8191s", buf)==1){
 			fclose(fp);
 			free(codec_filename);
 			free(phase);
-- 
2.43.0


From b3743d0bf7112298965a301c0e75d72a6486f4e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:30 +0000
Subject: [PATCH 93/94] fix: bsdconv_ctl() leaves a conversion where it was

It called every codec with the index of its phase set to it, and left it
there: data which followed were given to the wrong codec of the list, in
a state which was not its own.
---
 src/libbsdconv.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/libbsdconv.c b/src/libbsdconv.c
index 8d16a58..89aefdb 100644
--- a/src/libbsdconv.c
+++ b/src/libbsdconv.c
@@ -202,8 +202,9 @@ void bsdconv_init(struct bsdconv_instance *ins){
 }
 
 void bsdconv_ctl(struct bsdconv_instance *ins, int ctl, void *p, int v){
-	int i, j;
+	int i, j, phase_index=ins->phase_index, index;
 	for(i=1;i<=ins->phasen;++i){
+		index=ins->phase[i].index;
 		for(j=0;j<=ins->phase[i].codecn;++j){
 			if(ins->phase[i].codec[j].cbctl){
 				ins->phase_index=i;
@@ -211,7 +212,9 @@ void bsdconv_ctl(struct bsdconv_instance *ins, int ctl, void *p, int v){
 				ins->phase[i].codec[j].cbctl(ins, ctl, p, v);
 			}
 		}
+		ins->phase[i].index=index;
 	}
+	ins->phase_index=phase_index;
 }
 
 char *bsdconv_pack(struct bsdconv_instance *ins){
-- 
2.43.0


From 2cb6f3a2d3c468e803940a40354d7643c157f858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:41:35 +0000
Subject: [PATCH 94/94] fix: bsdconv-mktable mixes up entries with a callback
 which match unequally well

---
 src/bsdconv-mktable.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/bsdconv-mktable.c b/src/bsdconv-mktable.c
index 0060687..e4b4614 100644
--- a/src/bsdconv-mktable.c
+++ b/src/bsdconv-mktable.c
@@ -126,7 +126,8 @@ uintptr_t hash(int *p, uintptr_t l){
 }
 struct hash *callback_hash;
 
-uintptr_t hash_callback(int *p, uintptr_t l){
+/* entries of the same data and level share a state */
+uintptr_t hash_callback(int *p, uintptr_t l, int level){
 	int i;
 	struct hash *hash_q=callback_hash;
 	for(i=l-1;i>=0;--i){
@@ -143,9 +144,10 @@ uintptr_t hash_callback(int *p, uintptr_t l){
 		}
 		hash_q=hash_q->sub[p[i]];
 	}
-	if(hash_q->v==0){
+	if(hash_q->v==0 || ((struct m_state_st *) hash_q->v)->level!=level){
 		state_t->n=state_new(SUBROUTINE);
 		state_t=state_t->n;
+		state_t->level=level;
 		hash_q->v=(uintptr_t) state_t;
 	}
 	return hash_q->v;
@@ -439,9 +441,14 @@ DPRINTF("%p[%X]=%p\n", todo_item->state, c, state_t);
 							/* longer keys may already go through this state */
 							todo_item->state->base[c]->status=todo_item->state->base[c]->base ? SUBMATCH : MATCH;
 						}
+					}else if(todo_item->state->base[c]->base){
+						todo_item->state->base[c]->status=SUBMATCH_SUBROUTINE;
+					}else{
+						/* other keys may share the state */
+						todo_item->state->base[c]=(struct m_state_st *) hash_callback(dat, l, level+todo_item->level);
 					}
 				}else if(callback){
-					todo_item->state->base[c]=(struct m_state_st *) hash_callback(dat, l);
+					todo_item->state->base[c]=(struct m_state_st *) hash_callback(dat, l, level+todo_item->level);
 				}else{
 					todo_item->state->base[c]=state_t->n=state_new(MATCH);
 					state_t=state_t->n;
-- 
2.43.0

