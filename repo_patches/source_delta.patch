From 15bfef7f99741037aa6919fe339448e1559fc0cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:07 +0000
Subject: [PATCH 01/44] fix: single-word big-number operations negate the sign
 instead of toggling it

---
 src/com/bignumber.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/com/bignumber.c b/src/com/bignumber.c
index 48fffad..18b5749 100644
--- a/src/com/bignumber.c
+++ b/src/com/bignumber.c
@@ -974,7 +974,7 @@ int BnMulInt(struct RaBigNumber *bn, bn_int_t multiplier)
 	uint64_t cw;
 
 	if (multiplier < 0) {
-		bn->sign = -bn->sign;
+		bn->sign = !bn->sign;
 		multiplier = -multiplier;
 	}
 	val.high = 0;
@@ -1001,7 +1001,7 @@ int BnMulInt(struct RaBigNumber *bn, bn_int_t multiplier)
 	int i;
 
 	if (multiplier < 0) {
-		bn->sign = -bn->sign;
+		bn->sign = !bn->sign;
 		multiplier = -multiplier;
 	}
 	val = 0;
@@ -1081,7 +1081,7 @@ int BnDivInt(struct RaBigNumber *bn, bn_int_t divisor, /*out*/bn_uint_t *remaind
 		return RA_ERR_DIVIDED_BY_ZERO;
 	}
 	if (divisor < 0) {
-		bn->sign = -bn->sign;
+		bn->sign = !bn->sign;
 		divisor = -divisor;
 	}
 
@@ -1121,7 +1121,7 @@ int BnDivInt(struct RaBigNumber *bn, bn_int_t divisor, /*out*/bn_uint_t *remaind
 		return RA_ERR_DIVIDED_BY_ZERO;
 	}
 	if (divisor < 0) {
-		bn->sign = -bn->sign;
+		bn->sign = !bn->sign;
 		divisor = -divisor;
 	}
 	val = 0;
@@ -1961,7 +1961,7 @@ static int _BnSubUInt(struct RaBigNumber *a, bn_uint_t val)
 
 	if (al == 1 && (*ad) < val) {
 		*ad = val - (*ad);
-		a->sign = -a->sign;
+		a->sign = !a->sign;
 		return RA_ERR_SUCCESS;
 	}
 
-- 
2.43.0


From 6a45384eb2ed2c4341edfdd9feb594f4211b501e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:07 +0000
Subject: [PATCH 02/44] fix: division by a word leaves a remainder equal to the
 divisor

---
 src/com/bignumber.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/com/bignumber.c b/src/com/bignumber.c
index 18b5749..f940900 100644
--- a/src/com/bignumber.c
+++ b/src/com/bignumber.c
@@ -1092,7 +1092,7 @@ int BnDivInt(struct RaBigNumber *bn, bn_int_t divisor, /*out*/bn_uint_t *remaind
 		val.high = val.low;
 		val.low = bn->data[i];
 
-		if (val.high != 0 || val.low > (bn_uint_t)divisor) {
+		if (val.high != 0 || val.low >= (bn_uint_t)divisor) {
 			if (length == 0)
 				length = i + 1;
 			bn->data[i] = _BnDiv128(val, (bn_uint_t)divisor, &val.low);
@@ -1127,7 +1127,7 @@ int BnDivInt(struct RaBigNumber *bn, bn_int_t divisor, /*out*/bn_uint_t *remaind
 	val = 0;
 	for (i = bn->length - 1; i >= 0; i--) {
 		val = (val << 32) + bn->data[i];
-		if (val > (uint32_t)divisor) {
+		if (val >= (uint32_t)divisor) {
 			if (length == 0)
 				length = i + 1;
 			bn->data[i] = (uint32_t)(val / (uint32_t)divisor);
@@ -1170,7 +1170,7 @@ int BnDivUInt(struct RaBigNumber *bn, bn_uint_t divisor, /*out*/bn_uint_t *remai
 		val.high = val.low;
 		val.low = bn->data[i];
 
-		if (val.high != 0 || val.low > (bn_uint_t)divisor) {
+		if (val.high != 0 || val.low >= (bn_uint_t)divisor) {
 			if (length == 0)
 				length = i + 1;
 			bn->data[i] = _BnDiv128(val, (bn_uint_t)divisor, &val.low);
@@ -1201,7 +1201,7 @@ int BnDivUInt(struct RaBigNumber *bn, bn_uint_t divisor, /*out*/bn_uint_t *remai
 	val = 0;
 	for (i = bn->length - 1; i >= 0; i--) {
 		val = (val << 32) + bn->data[i];
-		if (val > (uint32_t)divisor) {
+		if (val >= (uint32_t)divisor) {
 			if (length == 0)
 				length = i + 1;
 			bn->data[i] = (uint32_t)(val / (uint32_t)divisor);
@@ -1243,7 +1243,7 @@ int BnModUInt(struct RaBigNumber *bn, bn_uint_t divisor, /*out*/bn_uint_t *remai
 		val.high = val.low;
 		val.low = bn->data[i];
 
-		if (val.high > 0 || val.low > divisor) {
+		if (val.high > 0 || val.low >= divisor) {
 			if (length == 0)
 				length = i + 1;
 			_BnDiv128(val, divisor, &val.low);
@@ -1263,7 +1263,7 @@ int BnModUInt(struct RaBigNumber *bn, bn_uint_t divisor, /*out*/bn_uint_t *remai
 	val = 0;
 	for (i = bn->length - 1; i >= 0; i--) {
 		val = (val << 32) + bn->data[i];
-		if (val > divisor) {
+		if (val >= divisor) {
 			if (length == 0)
 				length = i + 1;
 			val %= (uint32_t)divisor;
-- 
2.43.0


From 9c806bd371112c74648132abadb7091cf2b8fc1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:07 +0000
Subject: [PATCH 03/44] fix: zero results keep a minus sign and then compare
 unequal to zero

---
 src/com/bignumber.c | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/com/bignumber.c b/src/com/bignumber.c
index f940900..6aa940c 100644
--- a/src/com/bignumber.c
+++ b/src/com/bignumber.c
@@ -332,6 +332,8 @@ int BnAdd(struct RaBigNumber *r, struct RaBigNumber *a, struct RaBigNumber *b)
 		ret = _BnAdd(r, a, b);
 		r->sign = a->sign;
 	}
+	if (BN_ISZERO(r))
+		r->sign = 0;
 	return ret;
 }
 
@@ -353,6 +355,8 @@ int BnSub(struct RaBigNumber *r, struct RaBigNumber *a, struct RaBigNumber *b)
 			r->sign = !a->sign;
 		}
 	}
+	if (BN_ISZERO(r))
+		r->sign = 0;
 	return ret;
 }
 
@@ -706,7 +710,7 @@ int BnMod(struct RaBigNumber *r, struct RaBigNumber *a, struct RaBigNumber *b)
 #endif
 
 	BnShiftR(r, (uint32_t)bit);
-	r->sign = a->sign;
+	r->sign = BN_ISZERO(r) ? 0 : a->sign;
 
 	BnFree(aa);
 	BnFree(bb);
@@ -892,7 +896,7 @@ int BnDiv(struct RaBigNumber *q, struct RaBigNumber *r, struct RaBigNumber *a, s
 
 	BnShiftR(rr, (uint32_t)bit);
 
-	rr->sign = a->sign;
+	rr->sign = BN_ISZERO(rr) ? 0 : a->sign;
 	if (q->sign && !BN_ISZERO(rr)) {
 		BnSubInt(q, 1);
 		BnAdd(r, rr, b);
@@ -900,6 +904,8 @@ int BnDiv(struct RaBigNumber *q, struct RaBigNumber *r, struct RaBigNumber *a, s
 	else {
 		BnSet(r, rr);
 	}
+	if (BN_ISZERO(q))
+		q->sign = 0;
 
 	BnFree(aa);
 	BnFree(bb);
@@ -1104,6 +1110,7 @@ int BnDivInt(struct RaBigNumber *bn, bn_int_t divisor, /*out*/bn_uint_t *remaind
 	if (length == 0) {
 		bn->length = 1;
 		bn->data[0] = 0;
+		bn->sign = 0;
 	}
 	else {
 		bn->length = length;
@@ -1140,6 +1147,7 @@ int BnDivInt(struct RaBigNumber *bn, bn_int_t divisor, /*out*/bn_uint_t *remaind
 	if (length == 0) {
 		bn->length = 1;
 		bn->data[0] = 0;
+		bn->sign = 0;
 	}
 	else {
 		bn->length = length;
@@ -1182,6 +1190,7 @@ int BnDivUInt(struct RaBigNumber *bn, bn_uint_t divisor, /*out*/bn_uint_t *remai
 	if (length == 0) {
 		bn->length = 1;
 		bn->data[0] = 0;
+		bn->sign = 0;
 	}
 	else {
 		bn->length = length;
@@ -1214,6 +1223,7 @@ int BnDivUInt(struct RaBigNumber *bn, bn_uint_t divisor, /*out*/bn_uint_t *remai
 	if (length == 0) {
 		bn->length = 1;
 		bn->data[0] = 0;
+		bn->sign = 0;
 	}
 	else {
 		bn->length = length;
@@ -1382,6 +1392,8 @@ int BnShiftR(struct RaBigNumber *bn, uint32_t bit)
 	bn->length = (int)(intptr_t)(dest - bn->data);
 	if ( bn->length > 1 && *(--dest) == 0 )
 		bn->length--;
+	if (BN_ISZERO(bn))
+		bn->sign = 0;
 
 	return RA_ERR_SUCCESS;
 }
@@ -1979,6 +1991,8 @@ static int _BnSubUInt(struct RaBigNumber *a, bn_uint_t val)
 	if (i == al && a->length > 1 && (*--ad) == 0) {
 		a->length--;
 	}
+	if (BN_ISZERO(a))
+		a->sign = 0;
 	return RA_ERR_SUCCESS;
 }
 
-- 
2.43.0


From e3d5086ec76e891eaa2a8d6a1393670eb9c5bd98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:07 +0000
Subject: [PATCH 04/44] fix: multiplying a multi-word number by the word zero
 leaves leading zero words

---
 src/com/bignumber.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/com/bignumber.c b/src/com/bignumber.c
index 6aa940c..fd35e11 100644
--- a/src/com/bignumber.c
+++ b/src/com/bignumber.c
@@ -979,6 +979,10 @@ int BnMulInt(struct RaBigNumber *bn, bn_int_t multiplier)
 	int i;
 	uint64_t cw;
 
+	if (multiplier == 0 || BN_ISZERO(bn)) {
+		BnSetUInt(bn, 0);
+		return RA_ERR_SUCCESS;
+	}
 	if (multiplier < 0) {
 		bn->sign = !bn->sign;
 		multiplier = -multiplier;
@@ -1006,6 +1010,10 @@ int BnMulInt(struct RaBigNumber *bn, bn_int_t multiplier)
 	uint64_t val;
 	int i;
 
+	if (multiplier == 0 || BN_ISZERO(bn)) {
+		BnSetUInt(bn, 0);
+		return RA_ERR_SUCCESS;
+	}
 	if (multiplier < 0) {
 		bn->sign = !bn->sign;
 		multiplier = -multiplier;
@@ -1035,6 +1043,10 @@ int BnMulUInt(struct RaBigNumber *bn, bn_uint_t multiplier)
 	int i;
 	uint64_t cw;
 
+	if (multiplier == 0) {
+		BnSetUInt(bn, 0);
+		return RA_ERR_SUCCESS;
+	}
 	val.high = 0;
 	val.low = 0;
 	for (i = 0; i < bn->length; i++) {
@@ -1057,6 +1069,10 @@ int BnMulUInt(struct RaBigNumber *bn, bn_uint_t multiplier)
 	uint64_t val;
 	int i;
 
+	if (multiplier == 0) {
+		BnSetUInt(bn, 0);
+		return RA_ERR_SUCCESS;
+	}
 	val = 0;
 	for (i = 0; i < bn->length; i++) {
 		val = (uint64_t)bn->data[i] * (uint32_t)multiplier + (val >> 32);
-- 
2.43.0


From 6e8ba09a9277cd4845106ef47af50d59f238130f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:07 +0000
Subject: [PATCH 05/44] fix: addition writes past the destination when the
 second operand is the longer one

---
 src/com/bignumber.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/com/bignumber.c b/src/com/bignumber.c
index fd35e11..c409271 100644
--- a/src/com/bignumber.c
+++ b/src/com/bignumber.c
@@ -1640,7 +1640,7 @@ static int _BnAdd(struct RaBigNumber *r, struct RaBigNumber *a, struct RaBigNumb
 	int al;
 	int bl;
 
-	if (r->max_length < a->length) {
+	if (r->max_length < a->length || r->max_length < b->length) {
 		assert(0);
 		return RA_ERR_NUMBER_SIZE;
 	}
-- 
2.43.0


From 3739026e834473535aa7d9a9ccf82177219d43c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:07 +0000
Subject: [PATCH 06/44] fix: in-place addition writes past the destination when
 the other operand is longer

---
 src/com/bignumber.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/com/bignumber.c b/src/com/bignumber.c
index c409271..79efe9b 100644
--- a/src/com/bignumber.c
+++ b/src/com/bignumber.c
@@ -1792,6 +1792,10 @@ int _BnAddR(struct RaBigNumber *a, struct RaBigNumber *b)
 	bl = b->length;
 
 	if (a->length < b->length) {
+		if (a->max_length < b->length) {
+			assert(0);
+			return RA_ERR_NUMBER_SIZE;
+		}
 		memset(a->data + a->length, 0, sizeof(bn_uint_t) * ((size_t)b->length - a->length));
 		a->length = b->length;
 	}
-- 
2.43.0


From 6d4f95eebdd8ea72978b11576a9e4415e0d90ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:07 +0000
Subject: [PATCH 07/44] fix: shifting zero left or shifting out a whole number
 leaves a malformed number

---
 src/com/bignumber.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/com/bignumber.c b/src/com/bignumber.c
index 79efe9b..dc8898a 100644
--- a/src/com/bignumber.c
+++ b/src/com/bignumber.c
@@ -1312,11 +1312,15 @@ int BnShiftL(struct RaBigNumber *bn, uint32_t bit)
 	bn_uint_t val;
 	bn_uint_t val_prev;
 
-	if (bit == 0) {
+	if (bit == 0 || BN_ISZERO(bn)) {
 		return RA_ERR_SUCCESS;
 	}
 
-	word = (bit + BN_WORD_BIT - 1) / BN_WORD_BIT;
+	word = (int)(bit / BN_WORD_BIT + (bit % BN_WORD_BIT != 0));
+	if (word > bn->max_length) {
+		assert(0);
+		return RA_ERR_NUMBER_SIZE;
+	}
 
 	if (bn->max_length < bn->length + word) {
 		// calculate the accurate required word length
@@ -1381,6 +1385,11 @@ int BnShiftR(struct RaBigNumber *bn, uint32_t bit)
 	word = bit / BN_WORD_BIT;
 	bit %= BN_WORD_BIT;
 
+	if (word >= bn->length) {
+		BnSetUInt(bn, 0);
+		return RA_ERR_SUCCESS;
+	}
+
 	dest = &bn->data[0];
 	src = &bn->data[word];
 	bn_end = bn->data + bn->length;
-- 
2.43.0


From d4bbd9e66e05c334d256f7250468fe169264e4ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:10 +0000
Subject: [PATCH 08/44] fix: modulo needs one word more than the divisor in the
 destination

---
 src/com/bignumber.c | 49 +++++++++++++++++++++++++--------------------
 1 file changed, 27 insertions(+), 22 deletions(-)

diff --git a/src/com/bignumber.c b/src/com/bignumber.c
index dc8898a..2dc7f20 100644
--- a/src/com/bignumber.c
+++ b/src/com/bignumber.c
@@ -579,6 +579,7 @@ int BnSqr(struct RaBigNumber *r, struct RaBigNumber *a)
 // r = a % b
 int BnMod(struct RaBigNumber *r, struct RaBigNumber *a, struct RaBigNumber *b)
 {
+	struct RaBigNumber *rr;
 	struct RaBigNumber *aa;		// a << n
 	struct RaBigNumber *bb;		// b << n
 	struct RaBigNumber *bq;		// b * q
@@ -610,11 +611,13 @@ int BnMod(struct RaBigNumber *r, struct RaBigNumber *a, struct RaBigNumber *b)
 	aa = BnNewW(a->length + 1);		// a << n
 	bb = BnNewW(b->length + 1);		// b << n
 	bq = BnNewW(b->length + 1);		// b * qu(32bit)
+	rr = BnNewW(b->length + 1);
 
-	if (aa == NULL || bb == NULL || bq == NULL) {
+	if (aa == NULL || bb == NULL || bq == NULL || rr == NULL) {
 		BN_SAFEFREE(aa);
 		BN_SAFEFREE(bb);
 		BN_SAFEFREE(bq);
+		BN_SAFEFREE(rr);
 		return RA_ERR_OUT_OF_MEMORY;
 	}
 
@@ -626,33 +629,33 @@ int BnMod(struct RaBigNumber *r, struct RaBigNumber *a, struct RaBigNumber *b)
 	BnShiftL(aa, (uint32_t)bit);
 	BnShiftL(bb, (uint32_t)bit);
 
-	// copy first bb->length-1 of aa->data to r
-	// this reduce loop count until r gets greater than bb
-	BnSetInt(r, 0);
+	// copy first bb->length-1 of aa->data to rr
+	// this reduce loop count until rr gets greater than bb
+	BnSetInt(rr, 0);
 	if (b->length > 1) {
-		memcpy(r->data, aa->data + aa->length - bb->length + 1, sizeof(bn_uint_t) * ((size_t)bb->length - 1));
-		r->data[bb->length] = 0;
-		r->length = bb->length - 1;
+		memcpy(rr->data, aa->data + aa->length - bb->length + 1, sizeof(bn_uint_t) * ((size_t)bb->length - 1));
+		rr->data[bb->length] = 0;
+		rr->length = bb->length - 1;
 	}
 
 	bu = bb->data[bb->length - 1];		// highst word of bb
 	ad = &aa->data[aa->length - bb->length];
-	rd = &r->data[bb->length - 1];
+	rd = &rr->data[bb->length - 1];
 
 #if BN_WORD_BYTE == 8
 	ru.high = 0;
 	ru.low = 0;
 
 	while (ad >= aa->data) {
-		BnShiftL(r, 64);
-		r->data[0] = (*ad);
+		BnShiftL(rr, 64);
+		rr->data[0] = (*ad);
 
 		// check the length
-		if (r->length > b->length) {
+		if (rr->length > b->length) {
 			ru.low = *rd;
 			ru.high = *(rd + 1);
 		}
-		else if (r->length == b->length) {
+		else if (rr->length == b->length) {
 			ru.low = *rd;
 			ru.high = 0;
 		}
@@ -666,11 +669,11 @@ int BnMod(struct RaBigNumber *r, struct RaBigNumber *a, struct RaBigNumber *b)
 
 			BnSet(bq, bb);
 			BnMulUInt(bq, qu);		// bq = bb * qu
-			while (_BnCmp(r, bq) < 0) {
+			while (_BnCmp(rr, bq) < 0) {
 				_BnSubR(bq, bb);
 				qu--;
 			}
-			_BnSubR(r, bq);		// rr -= bb * qu
+			_BnSubR(rr, bq);		// rr -= bb * qu
 		}
 
 		ad--;
@@ -679,13 +682,13 @@ int BnMod(struct RaBigNumber *r, struct RaBigNumber *a, struct RaBigNumber *b)
 	ru = 0;
 
 	while (ad >= aa->data) {
-		BnShiftL(r, 32);
-		r->data[0] = (*ad);
+		BnShiftL(rr, 32);
+		rr->data[0] = (*ad);
 
 		// check the length
-		if (r->length > b->length)
+		if (rr->length > b->length)
 			ru = ((uint64_t)(*(rd + 1)) << 32) | (*rd);
-		else if (r->length == b->length)
+		else if (rr->length == b->length)
 			ru = *rd;
 		else
 			ru = 0;
@@ -698,23 +701,25 @@ int BnMod(struct RaBigNumber *r, struct RaBigNumber *a, struct RaBigNumber *b)
 
 			BnSet(bq, bb);
 			BnMulUInt(bq, qu);		// bq = bb * qu
-			while (_BnCmp(r, bq) < 0) {
+			while (_BnCmp(rr, bq) < 0) {
 				_BnSubR(bq, bb);
 				qu--;
 			}
-			_BnSubR(r, bq);		// rr -= bb * qu
+			_BnSubR(rr, bq);		// rr -= bb * qu
 		}
 
 		ad--;
 	}
 #endif
 
-	BnShiftR(r, (uint32_t)bit);
-	r->sign = BN_ISZERO(r) ? 0 : a->sign;
+	BnShiftR(rr, (uint32_t)bit);
+	rr->sign = BN_ISZERO(rr) ? 0 : a->sign;
+	BnSet(r, rr);
 
 	BnFree(aa);
 	BnFree(bb);
 	BnFree(bq);
+	BnFree(rr);
 
 	return RA_ERR_SUCCESS;
 }
-- 
2.43.0


From 0969291ce7670997b292a408b8f33390f9778fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:10 +0000
Subject: [PATCH 09/44] fix: division of a shorter dividend with mixed signs
 does not round down

---
 src/com/bignumber.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/com/bignumber.c b/src/com/bignumber.c
index 2dc7f20..cc74d5b 100644
--- a/src/com/bignumber.c
+++ b/src/com/bignumber.c
@@ -760,6 +760,10 @@ int BnDiv(struct RaBigNumber *q, struct RaBigNumber *r, struct RaBigNumber *a, s
 	}
 
 	if (a->length < b->length) {
+		if (a->sign != b->sign && !BN_ISZERO(a)) {
+			BnSetInt(q, -1);
+			return BnAdd(r, a, b);
+		}
 		BnSet(r, a);
 		BnSetInt(q, 0);
 		return RA_ERR_SUCCESS;
-- 
2.43.0


From 7bc507d11bb6996f81d2815a4366ceb30d8d234d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:10 +0000
Subject: [PATCH 10/44] fix: division hides that the rounded quotient does not
 fit

---
 src/com/bignumber.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/com/bignumber.c b/src/com/bignumber.c
index cc74d5b..6ca4b4c 100644
--- a/src/com/bignumber.c
+++ b/src/com/bignumber.c
@@ -732,6 +732,7 @@ int BnDiv(struct RaBigNumber *q, struct RaBigNumber *r, struct RaBigNumber *a, s
 	struct RaBigNumber *bq;		// b * q
 	int bit;
 	int length;
+	int result = RA_ERR_SUCCESS;
 #if BN_WORD_BYTE == 8
 	bn_uint128_t ru;
 #else
@@ -907,7 +908,7 @@ int BnDiv(struct RaBigNumber *q, struct RaBigNumber *r, struct RaBigNumber *a, s
 
 	rr->sign = BN_ISZERO(rr) ? 0 : a->sign;
 	if (q->sign && !BN_ISZERO(rr)) {
-		BnSubInt(q, 1);
+		result = BnSubInt(q, 1);
 		BnAdd(r, rr, b);
 	}
 	else {
@@ -921,7 +922,7 @@ int BnDiv(struct RaBigNumber *q, struct RaBigNumber *r, struct RaBigNumber *a, s
 	BnFree(bq);
 	BnFree(rr);
 
-	return RA_ERR_SUCCESS;
+	return result;
 }
 
 
-- 
2.43.0


From 2056053d67a3d1f5f0f0e59730f14739e2ebca34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:10 +0000
Subject: [PATCH 11/44] fix: random numbers of some sizes are masked with an
 overflowing shift

---
 src/com/bignumber.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/com/bignumber.c b/src/com/bignumber.c
index 6ca4b4c..038c9e8 100644
--- a/src/com/bignumber.c
+++ b/src/com/bignumber.c
@@ -1472,9 +1472,10 @@ int BnGenRandom(struct RaBigNumber *bn, int bit, struct RaRandom *rnd)
 	bit %= BN_WORD_BIT;
 
 	if (bit > 0) {
-		bn->data[word - 1] &= (1 << bit) - 1;
+		bn->data[word - 1] &= ((bn_uint_t)1 << bit) - 1;
 	}
 	bn->length = word;
+	bn->sign = 0;
 	while (bn->length > 1 && bn->data[bn->length - 1] == 0)
 		bn->length--;
 
-- 
2.43.0


From 1ea437198fa10327f3eddb6c0904671cdd71707d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:10 +0000
Subject: [PATCH 12/44] fix: random number creation ignores that no generator
 could be made

---
 src/com/bignumber.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/com/bignumber.c b/src/com/bignumber.c
index 038c9e8..13fd286 100644
--- a/src/com/bignumber.c
+++ b/src/com/bignumber.c
@@ -1455,6 +1455,7 @@ int BnGetBitLength(struct RaBigNumber *bn)
 int BnGenRandom(struct RaBigNumber *bn, int bit, struct RaRandom *rnd)
 {
 	int word;
+	int result;
 
 	if (bit <= 0) {
 		BnSetInt(bn, 0);
@@ -1467,7 +1468,9 @@ int BnGenRandom(struct RaBigNumber *bn, int bit, struct RaRandom *rnd)
 		return RA_ERR_NUMBER_SIZE;
 	}
 
-	BnGenRandomByteArray((uint8_t*)bn->data, word * BN_WORD_BYTE, rnd);
+	result = BnGenRandomByteArray((uint8_t*)bn->data, word * BN_WORD_BYTE, rnd);
+	if (result != RA_ERR_SUCCESS)
+		return result;
 
 	bit %= BN_WORD_BIT;
 
-- 
2.43.0


From bc19ac4a2b37da0850e50c3ca25bc3c0889b636c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:10 +0000
Subject: [PATCH 13/44] fix: reading a negative power of two aborts when the
 destination is full

---
 src/com/bignumber.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/com/bignumber.c b/src/com/bignumber.c
index 13fd286..ab21172 100644
--- a/src/com/bignumber.c
+++ b/src/com/bignumber.c
@@ -241,8 +241,13 @@ static int _BnSetByteArray(struct RaBigNumber *bn, const uint8_t *data, int len,
 	while( bn->length > 1 && bn->data[bn->length-1] == 0 ) {
 		bn->length--;
 	}
-	if (bn->sign)
+	if (bn->sign) {
+		// the magnitude needs one more word if all words are filled with ones
+		for (word = 0; word < bn->length && bn->data[word] == (bn_uint_t)-1; word++);
+		if (word == bn->max_length)
+			return RA_ERR_NUMBER_SIZE;
 		BnSubInt(bn, 1);
+	}
 
 	return RA_ERR_SUCCESS;
 }
-- 
2.43.0


From 408d97ffa81ee2a175f03b04c1808705e60ddc08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:10 +0000
Subject: [PATCH 14/44] fix: writing a number to an empty buffer stores one
 byte

---
 src/com/bignumber.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/com/bignumber.c b/src/com/bignumber.c
index ab21172..668fdf2 100644
--- a/src/com/bignumber.c
+++ b/src/com/bignumber.c
@@ -1552,11 +1552,13 @@ int BnToByteArray(struct RaBigNumber *bn, uint8_t *buffer, int bufferlen)
 	if (bn->sign && !BN_ISZERO(bn)) {
 		struct RaBigNumber *neg;
 		neg = BnClone(bn);
+		if (neg == NULL)
+			return 0;
 		BnAddInt(neg, 1);		// neg = ~bn + 1 = ~(bn + 1)
 		word = neg->data[neg->length - 1];
 		bit = _BnGetMSBPos(word);
 		if ((bit % 8) == 7) {			// if most significant bit is set.
-			if (buffer != NULL) {
+			if (buffer != NULL && bufferlen > 0) {
 				buffer[0] = 0xff;		// negative
 			}
 			offset++;
@@ -1588,7 +1590,7 @@ int BnToByteArray(struct RaBigNumber *bn, uint8_t *buffer, int bufferlen)
 		word = bn->data[bn->length - 1];
 		bit = _BnGetMSBPos(word);
 		if ((bit % 8) == 7) {			// if most significant bit is set.
-			if (buffer != NULL) {
+			if (buffer != NULL && bufferlen > 0) {
 				buffer[0] = 0x00;		// positive
 			}
 			offset++;
-- 
2.43.0


From adf9f86d862faffddf774eb3963116e2f164675c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:10 +0000
Subject: [PATCH 15/44] fix: gcd reports success when a result does not fit its
 destination

---
 src/com/gcd.c | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/com/gcd.c b/src/com/gcd.c
index 684f4eb..8424292 100644
--- a/src/com/gcd.c
+++ b/src/com/gcd.c
@@ -45,9 +45,7 @@ int GetGCD(/*out*/struct RaBigNumber *r, struct RaBigNumber *m, struct RaBigNumb
 		if (BnCmpUInt(r2, 0) == 0)
 			break;
 	}
-	BnSet(r, m);
-
-	result = RA_ERR_SUCCESS;
+	result = BnSet(r, m);
 _EXIT:
 	BN_SAFEFREE(r1);
 	BN_SAFEFREE(r2);
@@ -172,24 +170,27 @@ int GetGCDEx(/*out,nullable*/struct RaBigNumber *r, /*out*/struct RaBigNumber *a
 		t_0 = swap;
 	}
 	if (r != NULL) {
-		BnSet(r, m1);
+		result = BnSet(r, m1);
+		if (result != RA_ERR_SUCCESS) goto _EXIT;
 	}
 	if (a != NULL) {
 		// if ( r == 1 ) --> a is inverse of m (m*a mod n = 1)
 		if (isUnsigned && BN_ISNEG(s_1)) {
-			BnAdd(a, s_1, n);
+			result = BnAdd(a, s_1, n);
 		}
 		else {
-			BnSet(a, s_1);		// if ( r == 1 ) --> a is inverse of m (m*a mod n = 1)
+			result = BnSet(a, s_1);		// if ( r == 1 ) --> a is inverse of m (m*a mod n = 1)
 		}
+		if (result != RA_ERR_SUCCESS) goto _EXIT;
 	}
 	if (b != NULL) {
 		if (isUnsigned && BN_ISNEG(t_1)) {
-			BnAdd(b, t_1, m);
+			result = BnAdd(b, t_1, m);
 		}
 		else {
-			BnSet(b, t_1);
+			result = BnSet(b, t_1);
 		}
+		if (result != RA_ERR_SUCCESS) goto _EXIT;
 	}
 
 	result = RA_ERR_SUCCESS;
-- 
2.43.0


From 2cf9cb4c52a4d5382f69fd5983235481fa0d3fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:51 +0000
Subject: [PATCH 16/44] fix: 32-bit division looks at a word beyond the
 remainder

---
 src/com/bignumber.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/com/bignumber.c b/src/com/bignumber.c
index 668fdf2..0c2e8d9 100644
--- a/src/com/bignumber.c
+++ b/src/com/bignumber.c
@@ -873,7 +873,7 @@ int BnDiv(struct RaBigNumber *q, struct RaBigNumber *r, struct RaBigNumber *a, s
 			ru = 0;
 
 		if (ru >= bu) {
-			if  (*(rd + 1) == bu)		// overflow
+			if ((ru >> 32) == bu)		// overflow
 				qu = 0xFFFFFFFF;
 			else
 				qu = (uint32_t)(ru / bu);		// guess the quotient
-- 
2.43.0


From 64417f9160be261437a78024d7ccc4cc4aba7fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:51 +0000
Subject: [PATCH 17/44] fix: primality test does not check an allocation

---
 src/com/prime.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/com/prime.c b/src/com/prime.c
index 0f00fec..4d8f49f 100644
--- a/src/com/prime.c
+++ b/src/com/prime.c
@@ -292,6 +292,10 @@ static int CheckMillerRabin(struct RaBigNumber *bn, int count, struct RaRandom *
 	}
 
 	n1 = BnClone(bn);
+	if (n1 == NULL) {
+		result = RA_ERR_OUT_OF_MEMORY;
+		goto _EXIT;
+	}
 	BnSubInt(n1, 1);	// n1 = n - 1
 
 	s = 0;
-- 
2.43.0


From 2998ff8bafb2b41c7053d45b838dbb4d902df697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:51 +0000
Subject: [PATCH 18/44] fix: primality test never returns for 3 and for
 negative numbers

---
 src/com/prime.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/com/prime.c b/src/com/prime.c
index 4d8f49f..99666c1 100644
--- a/src/com/prime.c
+++ b/src/com/prime.c
@@ -286,10 +286,14 @@ static int CheckMillerRabin(struct RaBigNumber *bn, int count, struct RaRandom *
 	bn_uint_t data;
 	struct RaMontCtx *ctx = NULL;
 
-	if (BN_ISZERO(bn) || BN_ISONE(bn) || BN_ISEVEN(bn) ) {
+	if (BN_ISNEG(bn) || BN_ISZERO(bn) || BN_ISONE(bn) || BN_ISEVEN(bn) ) {
 		*probable = BN_ISTWO(bn);
 		return RA_ERR_SUCCESS;
 	}
+	if (BnCmpUInt(bn, 3) == 0) {	// no base between 1 and n-1
+		*probable = 1;
+		return RA_ERR_SUCCESS;
+	}
 
 	n1 = BnClone(bn);
 	if (n1 == NULL) {
-- 
2.43.0


From 6f998561ca53075f48b25c84462de46e9c773bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:51 +0000
Subject: [PATCH 19/44] fix: prime generation leaks its generator and runs on
 after errors

---
 src/com/prime.c | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/com/prime.c b/src/com/prime.c
index 99666c1..829f115 100644
--- a/src/com/prime.c
+++ b/src/com/prime.c
@@ -385,6 +385,7 @@ _EXIT:
 static int GenProbablePrimeNumber(struct RaBigNumber *bn, int bit, struct RaRandom *rnd)
 {
 	uint32_t *mods = NULL;
+	int result;
 	int i;
 	uint32_t add;
 	uint64_t val;
@@ -396,7 +397,11 @@ static int GenProbablePrimeNumber(struct RaBigNumber *bn, int bit, struct RaRand
 	}
 
 	for (;;) {
-		BnGetRandomRSA(bn, bit, rnd);
+		result = BnGetRandomRSA(bn, bit, rnd);
+		if (result != RA_ERR_SUCCESS) {
+			free(mods);
+			return result;
+		}
 
 		for (i = 0; i < NUM_PRIME; i++) {
 			BnModUInt(bn, primes[i], &mod);
@@ -460,22 +465,21 @@ int RaGenPrimeNumberEx(struct RaBigNumber *bn, int bit, int(*progress)(int count
 				break;
 		}
 		result = GenProbablePrimeNumber(bn, bit, rnd);
-		if (result != RA_ERR_SUCCESS) {
-			return result;
-		}
+		if (result != RA_ERR_SUCCESS) goto _EXIT;
 
 		result = CheckMillerRabin(bn, checkCount, rnd, &isPrime);
-		if (result != RA_ERR_SUCCESS) {
-			return result;
-		}
+		if (result != RA_ERR_SUCCESS) goto _EXIT;
 		if (isPrime) {
 			break;
 		}
 	}
+
+	result = RA_ERR_SUCCESS;
+_EXIT:
 	if (tmpRnd != NULL)
 		RaRandomDestroy(tmpRnd);
 
-	return RA_ERR_SUCCESS;
+	return result;
 }
 
 int RaIsPrimeNumber(struct RaBigNumber *bn)
-- 
2.43.0


From a1324be334ba973fc35130b01b53a06495043ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:51 +0000
Subject: [PATCH 20/44] fix: prime generation stopped by the callback reports
 success without a prime

---
 src/com/prime.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/com/prime.c b/src/com/prime.c
index 829f115..07eb77c 100644
--- a/src/com/prime.c
+++ b/src/com/prime.c
@@ -461,8 +461,10 @@ int RaGenPrimeNumberEx(struct RaBigNumber *bn, int bit, int(*progress)(int count
 	for (;;) {
 		count++;
 		if (progress != NULL) {
-			if (progress(count, userData) != 0)
-				break;
+			if (progress(count, userData) != 0) {
+				result = RA_ERR_INVALID_DATA;
+				goto _EXIT;
+			}
 		}
 		result = GenProbablePrimeNumber(bn, bit, rnd);
 		if (result != RA_ERR_SUCCESS) goto _EXIT;
-- 
2.43.0


From bd7ae6653f540569c02c45c2615bc94a3e435164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:20 +0000
Subject: [PATCH 21/44] fix: prime generation hangs or misses the size for
 small numbers of bits

---
 src/com/prime.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/com/prime.c b/src/com/prime.c
index 07eb77c..0ebd82b 100644
--- a/src/com/prime.c
+++ b/src/com/prime.c
@@ -388,9 +388,13 @@ static int GenProbablePrimeNumber(struct RaBigNumber *bn, int bit, struct RaRand
 	int result;
 	int i;
 	uint32_t add;
+	uint32_t small;
 	uint64_t val;
 	bn_uint_t mod;
 
+	if (bit < 2) {		// there is no such prime
+		return RA_ERR_INVALID_PARAM;
+	}
 	mods = malloc(NUM_PRIME * sizeof(uint32_t));
 	if (mods == NULL) {
 		return RA_ERR_OUT_OF_MEMORY;
@@ -408,9 +412,10 @@ static int GenProbablePrimeNumber(struct RaBigNumber *bn, int bit, struct RaRand
 			mods[i] = (uint32_t)mod;
 		}
 		add = 0;
+		small = bit <= 16 ? _BnGetUInt32(bn) : 0;		// it can be one of primes[]
 		for (;;) {
 			for (i = 0; i < NUM_PRIME; i++) {
-				if ((mods[i] + add) % primes[i] == 0) {
+				if ((mods[i] + add) % primes[i] == 0 && small + add != primes[i]) {
 					add += 2;
 					break;
 				}
@@ -423,11 +428,13 @@ static int GenProbablePrimeNumber(struct RaBigNumber *bn, int bit, struct RaRand
 		val = _BnGetUInt64(bn);
 		if (val + add < val)
 			continue;
+		BnAddUInt(bn, add);
+		if (BnGetBitLength(bn) != bit)
+			continue;
 
 		break;
 	}
 
-	BnAddUInt(bn, add);
 	free(mods);
 
 	return RA_ERR_SUCCESS;
-- 
2.43.0


From e6ca685945294cc8818182764719ed401a85ea04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:20 +0000
Subject: [PATCH 22/44] fix: preparing a modulus frees wild pointers when
 memory runs out

---
 src/com/montexpmod.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/com/montexpmod.c b/src/com/montexpmod.c
index 7d6ad32..3ea29ac 100644
--- a/src/com/montexpmod.c
+++ b/src/com/montexpmod.c
@@ -75,6 +75,7 @@ int RaMontCreate(struct RaBigNumber *N, /*out*/struct RaMontCtx **montCtx)
 		result = RA_ERR_OUT_OF_MEMORY;
 		goto _EXIT;
 	}
+	memset(ctx, 0, sizeof(struct RaMontCtx));
 
 	B = BnNewW(2);
 	if (B == NULL) {
@@ -124,11 +125,16 @@ _EXIT:
 void RaMontDestroy(struct RaMontCtx* ctx)
 {
 	if (ctx != NULL) {
-		BnClearFree(ctx->N);
-		BnClearFree(ctx->NB);
-		BnClearFree(ctx->BB);
-		BnClearFree(ctx->tmp);
-		BnClearFree(ctx->mul);
+		if (ctx->N != NULL)
+			BnClearFree(ctx->N);
+		if (ctx->NB != NULL)
+			BnClearFree(ctx->NB);
+		if (ctx->BB != NULL)
+			BnClearFree(ctx->BB);
+		if (ctx->tmp != NULL)
+			BnClearFree(ctx->tmp);
+		if (ctx->mul != NULL)
+			BnClearFree(ctx->mul);
 		memset(ctx, 0, sizeof(struct RaMontCtx));
 		free(ctx);
 	}
-- 
2.43.0


From 61dee0fca542304b8aa67e86479b82b2b4537574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:20 +0000
Subject: [PATCH 23/44] fix: an even modulus is accepted for Montgomery
 exponentiation

---
 src/com/montexpmod.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/com/montexpmod.c b/src/com/montexpmod.c
index 3ea29ac..a780358 100644
--- a/src/com/montexpmod.c
+++ b/src/com/montexpmod.c
@@ -70,6 +70,10 @@ int RaMontCreate(struct RaBigNumber *N, /*out*/struct RaMontCtx **montCtx)
 		result = RA_ERR_DIVIDED_BY_ZERO;
 		goto _EXIT;
 	}
+	if (BN_ISEVEN(N)) {		// N must be coprime to B
+		result = RA_ERR_INVALID_PARAM;
+		goto _EXIT;
+	}
 	ctx = (struct RaMontCtx*)malloc(sizeof(struct RaMontCtx));
 	if (ctx == NULL) {
 		result = RA_ERR_OUT_OF_MEMORY;
-- 
2.43.0


From 4b6df5860805f540ab025a244b8f921cbed83831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:20 +0000
Subject: [PATCH 24/44] fix: RaRandom can return 0, which its documentation
 excludes

---
 src/com/random.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/com/random.c b/src/com/random.c
index c7618da..1eb0870 100644
--- a/src/com/random.c
+++ b/src/com/random.c
@@ -244,7 +244,7 @@ double RaRandom(struct RaRandom *ctx)
 	do {
 		RaRandomBytes(ctx, 4, rnd_buffer);
 		rnd_val = (rnd_buffer[0] << 24) | (rnd_buffer[1] << 16) | (rnd_buffer[2] << 8) | rnd_buffer[3];
-	} while (rnd_val == UINT32_MAX);
+	} while (rnd_val == 0 || rnd_val == UINT32_MAX);
 
 	return (double)rnd_val / UINT32_MAX;
 }
-- 
2.43.0


From 3d9ec407fbeb934c19f4e08676749e419c37844f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:20 +0000
Subject: [PATCH 25/44] fix: RaRandomInt over the full range always returns the
 minimum

---
 src/com/random.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/com/random.c b/src/com/random.c
index 1eb0870..069f3c7 100644
--- a/src/com/random.c
+++ b/src/com/random.c
@@ -251,6 +251,6 @@ double RaRandom(struct RaRandom *ctx)
 
 uint32_t RaRandomInt(struct RaRandom *ctx, uint32_t min, uint32_t max)
 {
-	uint32_t range = max - min + 1;
+	double range = (double)(max - min) + 1;
 	return min + (uint32_t)(range * RaRandom(ctx));
 }
-- 
2.43.0


From e34e4ff205df1529f19d7b1bc36390a79128967a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:20 +0000
Subject: [PATCH 26/44] fix: system entropy is ignored and its file leaked when
 the descriptor is 0

---
 src/com/random.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/com/random.c b/src/com/random.c
index 069f3c7..6a45167 100644
--- a/src/com/random.c
+++ b/src/com/random.c
@@ -156,7 +156,7 @@ static void RaRandomGetRandomSeedBytes(/*out*/uint8_t seedBytes[RA_RAND_SEED_LEN
 	int size;
 	result = RA_ERR_INVALID_DATA;
 	fd = open("/dev/urandom", O_RDONLY);
-	if (fd > 0) {
+	if (fd >= 0) {
 		size = read(fd, seedBytes, RA_RAND_SEED_LEN - 4);
 		if (size == RA_RAND_SEED_LEN - 4) {
 			result = RA_ERR_SUCCESS;
-- 
2.43.0


From 68e878aa0e33847040be963fcccbda747b17044d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:51 +0000
Subject: [PATCH 27/44] fix: signature of 0 verifies when memory runs out
 during verification

---
 src/pk/rsa.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/pk/rsa.c b/src/pk/rsa.c
index f90f6ce..457b0a2 100644
--- a/src/pk/rsa.c
+++ b/src/pk/rsa.c
@@ -185,14 +185,13 @@ int RaRsaVerify(struct RaRsaKeyPair* key, struct RaBigNumber *secure, struct RaB
 	if (decrypted == NULL)
 		return RA_ERR_OUT_OF_MEMORY;
 
-	RaMontExpMod(key->mont, decrypted, secure, key->pub);
-	result = BnCmp(message, decrypted);
+	result = RaMontExpMod(key->mont, decrypted, secure, key->pub);
+	if (result == RA_ERR_SUCCESS && BnCmp(message, decrypted) != 0)
+		result = RA_ERR_INVALID_DATA;
 
 	BnFree(decrypted);
 
-	if (result == 0)
-		return RA_ERR_SUCCESS;	// validated
-	return RA_ERR_INVALID_DATA;
+	return result;
 }
 
 int RaRsaKeyBitLength( struct RaRsaKeyPair* key )
-- 
2.43.0


From ee042bff00c9535c10a35cabfdc86698a2e5e514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:51 +0000
Subject: [PATCH 28/44] fix: RSA operations accept values that are not below
 the modulus

---
 src/pk/rsa.c | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/pk/rsa.c b/src/pk/rsa.c
index 457b0a2..b30a6bc 100644
--- a/src/pk/rsa.c
+++ b/src/pk/rsa.c
@@ -151,9 +151,20 @@ void RaRsaDestroyKeyPair(struct RaRsaKeyPair *key)
 	free(key);
 }
 
+// a message, a ciphertext or a signature must be between 0 and n - 1
+static int RaRsaCheckRange(struct RaRsaKeyPair *key, struct RaBigNumber *value)
+{
+	if (BN_ISNEG(value) || BnCmp(value, key->mod) >= 0)
+		return RA_ERR_INVALID_PARAM;
+	return RA_ERR_SUCCESS;
+}
+
 int RaRsaEncrypt(struct RaRsaKeyPair* key, struct RaBigNumber *message, /*out*/struct RaBigNumber *secure)
 {
 	int result;
+	result = RaRsaCheckRange(key, message);
+	if (result != RA_ERR_SUCCESS)
+		return result;
 	result = RaMontExpMod(key->mont, secure, message, key->pub);
 	return result;
 }
@@ -163,6 +174,9 @@ int RaRsaDecrypt(struct RaRsaKeyPair* key, struct RaBigNumber *secure, /*out*/st
 	int result;
 	if (key->priv == NULL)
 		return RA_ERR_INVALID_DATA;
+	result = RaRsaCheckRange(key, secure);
+	if (result != RA_ERR_SUCCESS)
+		return result;
 	result = RaMontExpMod(key->mont, message, secure, key->priv);
 	return result;
 }
@@ -172,6 +186,9 @@ int RaRsaSign( struct RaRsaKeyPair* key, struct RaBigNumber *message, /*out*/str
 	int result;
 	if ( key->priv == NULL )
 		return RA_ERR_INVALID_DATA;
+	result = RaRsaCheckRange(key, message);
+	if (result != RA_ERR_SUCCESS)
+		return result;
 	result = RaMontExpMod( key->mont, secure, message, key->priv );
 	return result;
 }
@@ -181,6 +198,10 @@ int RaRsaVerify(struct RaRsaKeyPair* key, struct RaBigNumber *secure, struct RaB
 	int result;
 	struct RaBigNumber *decrypted;
 
+	result = RaRsaCheckRange(key, secure);
+	if (result != RA_ERR_SUCCESS)
+		return result;
+
 	decrypted = BnNewW(key->mod->length);
 	if (decrypted == NULL)
 		return RA_ERR_OUT_OF_MEMORY;
-- 
2.43.0


From 2cab25fa309603d814c00bb1975249b6802b7a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:51 +0000
Subject: [PATCH 29/44] fix: generated RSA keys cannot decrypt when e divides
 phi

---
 src/pk/rsa.c | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/pk/rsa.c b/src/pk/rsa.c
index b30a6bc..406d033 100644
--- a/src/pk/rsa.c
+++ b/src/pk/rsa.c
@@ -76,14 +76,17 @@ int RaRsaCreateKeyPair(int bit, /*out*/struct RaRsaKeyPair** keyPair) {
 		} while ( BnCmp( key->prime1, key->prime2 ) == 0 );
 
 		BnMul(key->mod, key->prime1, key->prime2);
-	} while(BnGetBitLength(key->mod) != bit);
+		if (BnGetBitLength(key->mod) != bit)
+			continue;
+
+		BnSubInt(key->prime1, 1);
+		BnSubInt(key->prime2, 1);
+		BnMul(phi, key->prime1, key->prime2);
+		// the private exponent exists only if gcd(e, phi) is 1
+		result = GetGCDEx(key->coeff, key->priv, NULL, key->pub, phi, 1);
+		if (result != RA_ERR_SUCCESS) goto _EXIT;
+	} while (BnGetBitLength(key->mod) != bit || !BN_ISONE(key->coeff));
 
-	BnSubInt(key->prime1, 1);
-	BnSubInt(key->prime2, 1);
-	BnMul(phi, key->prime1, key->prime2);
-	result = GetGCDEx(NULL, key->priv, NULL, key->pub, phi, 1);
-	if (result != RA_ERR_SUCCESS) goto _EXIT;
-	
 	//*
 	result = BnMod(key->exp1, key->priv, key->prime1);
 	if (result != RA_ERR_SUCCESS) goto _EXIT;
-- 
2.43.0


From 355a5a533d2f779e358c8b3b7a750656d87433fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:52 +0000
Subject: [PATCH 30/44] fix: import reads beyond the data for an integer
 without content

---
 src/pk/rsa.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pk/rsa.c b/src/pk/rsa.c
index 406d033..75d8544 100644
--- a/src/pk/rsa.c
+++ b/src/pk/rsa.c
@@ -305,7 +305,7 @@ static int RaRsaNewASN1Integer(const uint8_t *asn1Data, struct RaAsn1Node *node,
 	struct RaBigNumber *bn = NULL;
 	int bit;
 
-	if (node->type != RA_ASN1_OBJ_INTEGER) {
+	if (node->type != RA_ASN1_OBJ_INTEGER || node->dataLength <= 0) {
 		result = RA_ERR_INVALID_DATA;
 		goto _EXIT;
 	}
-- 
2.43.0


From 3d2a6fa518571e2b64bf087caa0867de9000b3e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:52 +0000
Subject: [PATCH 31/44] fix: import compares the algorithm identifier without
 regard to its length

---
 src/pk/rsa.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pk/rsa.c b/src/pk/rsa.c
index 75d8544..ca88629 100644
--- a/src/pk/rsa.c
+++ b/src/pk/rsa.c
@@ -462,7 +462,7 @@ _EXIT:
 }
 
 #define OID_RSA_Encryption		"\x2a\x86\x48\x86\xf7\x0d\x01\x01\x01"		// 1.2.840.113549.1.1.1
-#define IS_OID(data, node, oid)		((node)->type == RA_ASN1_OBJ_IDENTIFIER && memcmp((uint8_t*)data+(node)->dataOffset, oid, sizeof(oid)-1) == 0)
+#define IS_OID(data, node, oid)		((node)->type == RA_ASN1_OBJ_IDENTIFIER && (node)->dataLength == sizeof(oid)-1 && memcmp((uint8_t*)data+(node)->dataOffset, oid, sizeof(oid)-1) == 0)
 
 
 // pkcs#8, byte array = BER
-- 
2.43.0


From f1a2b97b4f42451a863a5bc1a0ed9ed9624d13ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:52 +0000
Subject: [PATCH 32/44] fix: import accepts zero and negative key integers

---
 src/pk/rsa.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pk/rsa.c b/src/pk/rsa.c
index ca88629..1834bf2 100644
--- a/src/pk/rsa.c
+++ b/src/pk/rsa.c
@@ -323,6 +323,12 @@ static int RaRsaNewASN1Integer(const uint8_t *asn1Data, struct RaAsn1Node *node,
 	result = BnSetByteArray(bn, asn1Data + node->dataOffset, node->dataLength);
 	if (result != RA_ERR_SUCCESS) goto _EXIT;
 
+	// all integers of a key are positive
+	if (BN_ISNEG(bn) || BN_ISZERO(bn)) {
+		result = RA_ERR_INVALID_DATA;
+		goto _EXIT;
+	}
+
 	*bnp = bn;
 	bn = NULL;
 
-- 
2.43.0


From a48cc817086cbb13d53c1593e20cdfcb1b63ac60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:52 +0000
Subject: [PATCH 33/44] fix: key verification accepts exponents that are not
 inverse and rejects ones reduced by lcm(p-1,q-1)

---
 src/pk/rsa.c | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/pk/rsa.c b/src/pk/rsa.c
index 1834bf2..a76aa47 100644
--- a/src/pk/rsa.c
+++ b/src/pk/rsa.c
@@ -229,7 +229,7 @@ int RaRsaVerifyKey(struct RaRsaKeyPair *key)
 {
 	int result;
 	struct RaBigNumber *temp = NULL;
-	struct RaBigNumber *phi = NULL;
+	struct RaBigNumber *ed = NULL;
 	struct RaBigNumber *prime1Sub1 = NULL;
 	struct RaBigNumber *prime2Sub1 = NULL;
 	int bit;
@@ -243,8 +243,13 @@ int RaRsaVerifyKey(struct RaRsaKeyPair *key)
 
 	bit = BnGetBitLength(key->mod);
 	temp = BnNew(bit);
-	phi = BnNew(bit);
+	ed = BnNew(bit * 2);
+	if (temp == NULL || ed == NULL) {
+		result = RA_ERR_OUT_OF_MEMORY;
+		goto _EXIT;
+	}
 
+	CHECK_KEY_DATA(BnCmp(key->priv, key->mod) < 0);
 	CHECK_KEY_DATA(BnGetBitLength(key->prime1) + BnGetBitLength(key->prime2) == bit);
 
 	result = RaIsPrimeNumber(key->prime1);
@@ -266,12 +271,19 @@ int RaRsaVerifyKey(struct RaRsaKeyPair *key)
 	BnSubInt(prime1Sub1, 1);
 	BnSubInt(prime2Sub1, 1);
 
-	BnMul(phi, prime1Sub1, prime2Sub1);
+	// e*d = 1 mod (p-1) and mod (q-1)
+	BnMul(ed, key->pub, key->priv);
+	BnSubInt(ed, 1);
 
-	result = GetGCDEx(NULL, temp, NULL, key->pub, phi, 1);
+	result = BnMod(temp, ed, prime1Sub1);
 	if (result != RA_ERR_SUCCESS) goto _EXIT;
 
-	CHECK_KEY_DATA(BnCmp(temp, key->priv) == 0);
+	CHECK_KEY_DATA(BN_ISZERO(temp));
+
+	result = BnMod(temp, ed, prime2Sub1);
+	if (result != RA_ERR_SUCCESS) goto _EXIT;
+
+	CHECK_KEY_DATA(BN_ISZERO(temp));
 
 	result = BnMod(temp, key->priv, prime1Sub1);
 	if (result != RA_ERR_SUCCESS) goto _EXIT;
@@ -292,7 +304,7 @@ int RaRsaVerifyKey(struct RaRsaKeyPair *key)
 
 _EXIT:
 	BN_SAFEFREE(temp);
-	BN_SAFEFREE(phi);
+	BN_SAFEFREE(ed);
 	BN_SAFEFREE(prime1Sub1);
 	BN_SAFEFREE(prime2Sub1);
 
-- 
2.43.0


From 2d679b00d3f7a2f25dbc200da9ac5a3ecaf01103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:10 +0000
Subject: [PATCH 34/44] fix: key import loses elements after nested or empty
 structures and ignores too deep nesting

---
 src/pk/asn1.c | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/pk/asn1.c b/src/pk/asn1.c
index d8e2d60..e628ac2 100644
--- a/src/pk/asn1.c
+++ b/src/pk/asn1.c
@@ -187,18 +187,25 @@ static int ASN1Parse(struct RaAsn1Ctx *ctx)
 		if (result != RA_ERR_SUCCESS) goto _EXIT;
 
 		if (ctx->cur->type & RA_ASN1_OBJ_TYPE_CONST) {
-			ASN1Push(ctx);
-			continue;
+			result = ASN1Push(ctx);
+			if (result != RA_ERR_SUCCESS) goto _EXIT;
+			if (ctx->dataIndex < ctx->dataEnd)
+				continue;
 		}
 
-		if (ctx->dataIndex >= ctx->dataEnd ||
-			(ctx->cur->type == 0 && ctx->cur->dataLength == 0) ) {		// end-of-content
+		if (ctx->cur->type == 0 && ctx->cur->dataLength == 0) {		// end-of-content
 			result = ASN1Pop(ctx);
 			if (result == RA_ERR_OUT_OF_BUFFER) {
-				result = RA_ERR_SUCCESS;
 				break;
 			}
-			if (result != RA_ERR_SUCCESS) goto _EXIT;
+		}
+		// leave all objects that end here
+		while (ctx->dataIndex >= ctx->dataEnd && ctx->dataSP > 0) {
+			if (ctx->dataStack[ctx->dataSP - 1].dataIndex < 0) {	// end-of-content is missing
+				result = RA_ERR_INVALID_DATA;
+				goto _EXIT;
+			}
+			ASN1Pop(ctx);
 		}
 	};
 
-- 
2.43.0


From 24bb5e0c5d99625eb7859af0f8a943880e81f4e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:31 +0000
Subject: [PATCH 35/44] fix: SHA-512 message length loses the bits between 2^61
 and 2^64 bytes

---
 src/digest/sha2.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/digest/sha2.c b/src/digest/sha2.c
index fac0c6b..30f97e3 100644
--- a/src/digest/sha2.c
+++ b/src/digest/sha2.c
@@ -552,7 +552,7 @@ static void _RaSha512Final(struct RaSha2Ctx* ctx, /*out*/uint8_t *output)
 	val = (uint32_t)(ctx->totalLen_hh >> 29);
 	PUT_UINT32_BE(ctx->buffer + 128 - 16, val);
 
-	val = (uint32_t)(ctx->totalLen_hh << 3);
+	val = (uint32_t)(ctx->totalLen_hh << 3) | (ctx->totalLen_h >> 29);
 	PUT_UINT32_BE(ctx->buffer + 128 - 12, val);
 
 	val = (ctx->totalLen_h << 3) | (ctx->totalLen_l >> 29);
-- 
2.43.0


From 76ccfa01be99a3fa683d02d9d7d17fc8d09a0b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:27 +0000
Subject: [PATCH 36/44] fix: negative number with a zero low word compares
 equal to 0 in BnCmpUInt

---
 src/com/bignumber.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/com/bignumber.c b/src/com/bignumber.c
index 0c2e8d9..cb3b394 100644
--- a/src/com/bignumber.c
+++ b/src/com/bignumber.c
@@ -314,7 +314,7 @@ int BnCmpUInt(struct RaBigNumber *a, bn_uint_t val)
 		return 0;
 	}
 	else {
-		if (a->data[0] == 0)
+		if (BN_ISZERO(a))
 			return 0;
 		return -1;
 	}
-- 
2.43.0


From 4e30c04280b1ff3fc0537a783c29a192ce80c0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:06 +0000
Subject: [PATCH 37/44] fix: the most negative word is mishandled when setting,
 multiplying or dividing

---
 src/com/bignumber.c | 62 ++++++++++++++++++++++++++-------------------
 1 file changed, 36 insertions(+), 26 deletions(-)

diff --git a/src/com/bignumber.c b/src/com/bignumber.c
index cb3b394..99343c8 100644
--- a/src/com/bignumber.c
+++ b/src/com/bignumber.c
@@ -73,45 +73,48 @@ void BnClearFree(struct RaBigNumber* bn)
 
 void BnSetInt(struct RaBigNumber *bn, bn_int_t value)
 {
+	bn_uint_t val = (bn_uint_t)value;
 	if (value < 0) {
 		bn->sign = 1;
-		value = -value;
+		val = 0 - val;
 	}
 	else {
 		bn->sign = 0;
 	}
-	bn->data[0] = (bn_uint_t)value;
+	bn->data[0] = val;
 	bn->length = 1;
 }
 
 void BnSetInt32(struct RaBigNumber *bn, int32_t value)
 {
+	uint32_t val = (uint32_t)value;
 	if (value < 0) {
 		bn->sign = 1;
-		value = -value;
+		val = 0 - val;
 	}
 	else {
 		bn->sign = 0;
 	}
-	bn->data[0] = (uint32_t)value;
+	bn->data[0] = val;
 	bn->length = 1;
 }
 
 void BnSetInt64(struct RaBigNumber *bn, int64_t value)
 {
+	uint64_t val = (uint64_t)value;
 	if (value < 0) {
 		bn->sign = 1;
-		value = -value;
+		val = 0 - val;
 	}
 	else {
 		bn->sign = 0;
 	}
 #if BN_WORD_BYTE == 8
-	bn->data[0] = (uint64_t)value;
+	bn->data[0] = val;
 	bn->length = 1;
 #else
-	bn->data[0] = (uint32_t)value;
-	bn->data[1] = (uint32_t)(value >> 32);
+	bn->data[0] = (uint32_t)val;
+	bn->data[1] = (uint32_t)(val >> 32);
 	bn->length = 1 + (bn->data[1] != 0);
 #endif
 }
@@ -293,10 +296,9 @@ int BnCmpInt(struct RaBigNumber *a, bn_int_t val)
 	else {
 		if (a->length > 1 || val > 0)
 			return -1;
-		val = -val;
-		if (a->data[0] > (bn_uint_t)val)
+		if (a->data[0] > 0 - (bn_uint_t)val)
 			return -1;
-		else if (a->data[0] < (bn_uint_t)val)
+		else if (a->data[0] < 0 - (bn_uint_t)val)
 			return 1;
 		return 0;
 	}
@@ -942,9 +944,9 @@ int BnAddInt(struct RaBigNumber *bn, bn_int_t val)
 	}
 	else {
 		if (bn->sign == 0)
-			ret = _BnSubUInt(bn, (bn_uint_t)-val);
+			ret = _BnSubUInt(bn, 0 - (bn_uint_t)val);
 		else
-			ret = _BnAddUInt(bn, (bn_uint_t)-val);
+			ret = _BnAddUInt(bn, 0 - (bn_uint_t)val);
 	}
 	return ret;
 }
@@ -970,9 +972,9 @@ int BnSubInt(struct RaBigNumber *bn, bn_int_t val)
 	}
 	else {
 		if (bn->sign == 0)
-			ret = _BnAddUInt(bn, (bn_uint_t)-val);
+			ret = _BnAddUInt(bn, 0 - (bn_uint_t)val);
 		else
-			ret = _BnSubUInt(bn, (bn_uint_t)-val);
+			ret = _BnSubUInt(bn, 0 - (bn_uint_t)val);
 	}
 	return ret;
 }
@@ -993,20 +995,22 @@ int BnMulInt(struct RaBigNumber *bn, bn_int_t multiplier)
 	bn_uint128_t val;
 	int i;
 	uint64_t cw;
+	bn_uint_t mul;
 
 	if (multiplier == 0 || BN_ISZERO(bn)) {
 		BnSetUInt(bn, 0);
 		return RA_ERR_SUCCESS;
 	}
+	mul = (bn_uint_t)multiplier;
 	if (multiplier < 0) {
 		bn->sign = !bn->sign;
-		multiplier = -multiplier;
+		mul = 0 - mul;
 	}
 	val.high = 0;
 	val.low = 0;
 	for (i = 0; i < bn->length; i++) {
 		cw = val.high;
-		_BnMul128(&val, bn->data[i], multiplier);
+		_BnMul128(&val, bn->data[i], mul);
 		val.low += cw;
 		if (val.low < cw)
 			val.high++;
@@ -1024,18 +1028,20 @@ int BnMulInt(struct RaBigNumber *bn, bn_int_t multiplier)
 #else
 	uint64_t val;
 	int i;
+	bn_uint_t mul;
 
 	if (multiplier == 0 || BN_ISZERO(bn)) {
 		BnSetUInt(bn, 0);
 		return RA_ERR_SUCCESS;
 	}
+	mul = (bn_uint_t)multiplier;
 	if (multiplier < 0) {
 		bn->sign = !bn->sign;
-		multiplier = -multiplier;
+		mul = 0 - mul;
 	}
 	val = 0;
 	for (i = 0; i < bn->length; i++) {
-		val = (uint64_t)bn->data[i] * (uint32_t)multiplier + (val >> 32);
+		val = (uint64_t)bn->data[i] * mul + (val >> 32);
 		bn->data[i] = (uint32_t)val;
 	}
 	val >>= 32;
@@ -1112,14 +1118,16 @@ int BnDivInt(struct RaBigNumber *bn, bn_int_t divisor, /*out*/bn_uint_t *remaind
 	bn_uint128_t val;
 	int i;
 	int length = 0;
+	bn_uint_t div;
 
 	if (divisor == 0) {
 		assert(0);
 		return RA_ERR_DIVIDED_BY_ZERO;
 	}
+	div = (bn_uint_t)divisor;
 	if (divisor < 0) {
 		bn->sign = !bn->sign;
-		divisor = -divisor;
+		div = 0 - div;
 	}
 
 	val.high = 0;
@@ -1129,10 +1137,10 @@ int BnDivInt(struct RaBigNumber *bn, bn_int_t divisor, /*out*/bn_uint_t *remaind
 		val.high = val.low;
 		val.low = bn->data[i];
 
-		if (val.high != 0 || val.low >= (bn_uint_t)divisor) {
+		if (val.high != 0 || val.low >= div) {
 			if (length == 0)
 				length = i + 1;
-			bn->data[i] = _BnDiv128(val, (bn_uint_t)divisor, &val.low);
+			bn->data[i] = _BnDiv128(val, div, &val.low);
 		}
 		else {
 			bn->data[i] = 0;
@@ -1153,23 +1161,25 @@ int BnDivInt(struct RaBigNumber *bn, bn_int_t divisor, /*out*/bn_uint_t *remaind
 	uint64_t val;
 	int i;
 	int length = 0;
+	bn_uint_t div;
 
 	if (divisor == 0) {
 		assert(0);
 		return RA_ERR_DIVIDED_BY_ZERO;
 	}
+	div = (bn_uint_t)divisor;
 	if (divisor < 0) {
 		bn->sign = !bn->sign;
-		divisor = -divisor;
+		div = 0 - div;
 	}
 	val = 0;
 	for (i = bn->length - 1; i >= 0; i--) {
 		val = (val << 32) + bn->data[i];
-		if (val >= (uint32_t)divisor) {
+		if (val >= div) {
 			if (length == 0)
 				length = i + 1;
-			bn->data[i] = (uint32_t)(val / (uint32_t)divisor);
-			val %= (uint32_t)divisor;
+			bn->data[i] = (uint32_t)(val / div);
+			val %= div;
 		}
 		else {
 			bn->data[i] = 0;
-- 
2.43.0


From 3756dc11b0939e46d8d20270f5e17551e8f972b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:36 +0000
Subject: [PATCH 38/44] fix: portable double-word division does not saturate
 when the quotient overflows

---
 src/com/bignumber.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/com/bignumber.c b/src/com/bignumber.c
index 99343c8..56696dd 100644
--- a/src/com/bignumber.c
+++ b/src/com/bignumber.c
@@ -2133,6 +2133,11 @@ static uint64_t _BnDiv128(bn_uint128_t a, uint64_t b, uint64_t *remainder)
 	bn_uint128_t bq;
 	int bit;
 
+	if (a.high >= b) {
+		// overflow
+		return UINT64_C(0xFFFFFFFFFFFFFFFF);
+	}
+
 	q = 0;
 
 	// make (ru / bu) fit to 32bit integer (ru = highst 64bit of r, bu = highst 32bit of bb)
-- 
2.43.0


From e866d5974d742acba0e5cd039bf3a30879a44fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:23 +0000
Subject: [PATCH 39/44] fix: odd random numbers of no bits write outside the
 number

---
 src/com/bignumber.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/com/bignumber.c b/src/com/bignumber.c
index 56696dd..5927da2 100644
--- a/src/com/bignumber.c
+++ b/src/com/bignumber.c
@@ -1504,6 +1504,8 @@ int BnGetRandomOdd(struct RaBigNumber *bn, int bit, struct RaRandom *rnd)
 {
 	int ret;
 
+	if (bit <= 0)		// there is no odd number below 2^0
+		return RA_ERR_INVALID_PARAM;
 	ret = BnGenRandom(bn, bit, rnd);
 	if (ret != RA_ERR_SUCCESS)
 		return ret;
@@ -1517,6 +1519,8 @@ int BnGetRandomRSA(struct RaBigNumber *bn, int bit, struct RaRandom *rnd)
 	int ret;
 	int word;
 
+	if (bit <= 0)		// there is no odd number below 2^0
+		return RA_ERR_INVALID_PARAM;
 	ret = BnGenRandom(bn, bit, rnd);
 	if (ret != RA_ERR_SUCCESS)
 		return ret;
-- 
2.43.0


From 0ab594ab7523957bf0a997c613ca2dd14183c7d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:10 +0000
Subject: [PATCH 40/44] fix: RSA key generation never ends for sizes without
 two primes

---
 src/pk/rsa.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pk/rsa.c b/src/pk/rsa.c
index a76aa47..bf3d044 100644
--- a/src/pk/rsa.c
+++ b/src/pk/rsa.c
@@ -28,6 +28,9 @@ int RaRsaCreateKeyPair(int bit, /*out*/struct RaRsaKeyPair** keyPair) {
 	struct RaRandom *rnd = NULL;
 
 	assert((bit % 2) == 0);
+	// two different primes of bit / 2 bits are needed
+	if (bit < 6 || (bit % 2) != 0)
+		return RA_ERR_INVALID_PARAM;
 
 	result = RaRandomCreate(RA_RAND_SHA160, NULL, 0, &rnd);
 	if (result != RA_ERR_SUCCESS) {
-- 
2.43.0


From a33185c8a18faee9a7e819b912049be562557f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:10 +0000
Subject: [PATCH 41/44] fix: key verification refuses keys whose modulus is one
 bit shorter than both primes together

---
 src/pk/rsa.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pk/rsa.c b/src/pk/rsa.c
index bf3d044..603b07a 100644
--- a/src/pk/rsa.c
+++ b/src/pk/rsa.c
@@ -245,7 +245,7 @@ int RaRsaVerifyKey(struct RaRsaKeyPair *key)
 	}
 
 	bit = BnGetBitLength(key->mod);
-	temp = BnNew(bit);
+	temp = BnNew(bit + 1);
 	ed = BnNew(bit * 2);
 	if (temp == NULL || ed == NULL) {
 		result = RA_ERR_OUT_OF_MEMORY;
@@ -253,7 +253,9 @@ int RaRsaVerifyKey(struct RaRsaKeyPair *key)
 	}
 
 	CHECK_KEY_DATA(BnCmp(key->priv, key->mod) < 0);
-	CHECK_KEY_DATA(BnGetBitLength(key->prime1) + BnGetBitLength(key->prime2) == bit);
+	// the product of an m bit and an n bit number has m + n or m + n - 1 bits
+	CHECK_KEY_DATA(BnGetBitLength(key->prime1) + BnGetBitLength(key->prime2) == bit ||
+		BnGetBitLength(key->prime1) + BnGetBitLength(key->prime2) == bit + 1);
 
 	result = RaIsPrimeNumber(key->prime1);
 	if (result != RA_ERR_SUCCESS) goto _EXIT;
-- 
2.43.0


From 8b4b8efdebc9fe2761f076b47c30a8a671c1e6b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:23 +0000
Subject: [PATCH 42/44] fix: export writes empty integers for numbers much
 longer than the modulus

---
 src/pk/rsa.c | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/pk/rsa.c b/src/pk/rsa.c
index 603b07a..01c0427 100644
--- a/src/pk/rsa.c
+++ b/src/pk/rsa.c
@@ -597,6 +597,13 @@ static const uint8_t rsakeyVersion[] = {
 	0x02, 0x01, 0x00
 };
 
+// the numbers of an imported key may be longer than its modulus
+static int RaRsaMaxBytes(int bytelen, struct RaBigNumber *bn)
+{
+	int len = BnGetBitLength(bn) / 8 + 1;
+	return len > bytelen ? len : bytelen;
+}
+
 int RaRsaPrivKeyToByteArray(struct RaRsaKeyPair* key, /*out*/uint8_t *asn1Data, int dataLen, /*out*/int *resultLen)
 {
 	int result;
@@ -614,6 +621,13 @@ int RaRsaPrivKeyToByteArray(struct RaRsaKeyPair* key, /*out*/uint8_t *asn1Data,
 		result = RA_ERR_INVALID_DATA;
 		goto _EXIT;
 	}
+	bytelen = RaRsaMaxBytes(bytelen, key->pub);
+	bytelen = RaRsaMaxBytes(bytelen, key->priv);
+	bytelen = RaRsaMaxBytes(bytelen, key->prime1);
+	bytelen = RaRsaMaxBytes(bytelen, key->prime2);
+	bytelen = RaRsaMaxBytes(bytelen, key->exp1);
+	bytelen = RaRsaMaxBytes(bytelen, key->exp2);
+	bytelen = RaRsaMaxBytes(bytelen, key->coeff);
 	temp = (uint8_t*)malloc(bytelen);
 	if (temp == NULL) {
 		result = RA_ERR_OUT_OF_MEMORY;
@@ -781,7 +795,7 @@ int RaRsaPubKeyToByteArray(struct RaRsaKeyPair* key, /*out*/uint8_t *asn1Data, i
 	int bytelen;
 	int len;
 	bit = BnGetBitLength(key->mod);
-	bytelen = bit * 8 + 1;	// max
+	bytelen = RaRsaMaxBytes(bit * 8 + 1, key->pub);	// max
 
 	temp = (uint8_t*)malloc(bytelen);
 	if (temp == NULL) {
-- 
2.43.0


From b1c8d51dfc5febbfd91b40e88340a9178d1e7e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:03 +0000
Subject: [PATCH 43/44] fix: clear secrets so that the compiler does not drop
 it before free

---
 src/cipher/aes.c          |  2 +-
 src/cipher/aria.c         |  2 +-
 src/cipher/blowfish.c     |  2 +-
 src/cipher/des.c          |  2 +-
 src/cipher/rc4.c          |  2 +-
 src/cipher/seed.c         |  2 +-
 src/com/bignumber.c       |  2 +-
 src/com/montexpmod.c      |  2 +-
 src/com/random.c          | 12 ++++++------
 src/digest/has160.c       |  2 +-
 src/digest/md2.c          |  2 +-
 src/digest/md4.c          |  2 +-
 src/digest/md5.c          |  2 +-
 src/digest/sha1.c         |  2 +-
 src/digest/sha2.c         |  2 +-
 src/include/racrypt_com.h | 10 ++++++++++
 src/pk/rsa.c              |  2 +-
 17 files changed, 31 insertions(+), 21 deletions(-)

diff --git a/src/cipher/aes.c b/src/cipher/aes.c
index da5c555..7ddb17b 100644
--- a/src/cipher/aes.c
+++ b/src/cipher/aes.c
@@ -364,7 +364,7 @@ int RaAesCreate(const uint8_t *key, enum RaAesKeyType keyType, enum RaBlockCiphe
 void RaAesDestroy(struct RaAesCtx *ctx)
 {
 	if (ctx != NULL) {
-		memset(ctx, 0, sizeof(struct RaAesCtx));
+		_RaMemClear(ctx, sizeof(struct RaAesCtx));
 		free(ctx);
 	}
 }
diff --git a/src/cipher/aria.c b/src/cipher/aria.c
index 0a060d0..4c4ebf0 100644
--- a/src/cipher/aria.c
+++ b/src/cipher/aria.c
@@ -358,7 +358,7 @@ int RaAriaCreate(const uint8_t *key, enum RaAriaKeyType keyType, enum RaBlockCip
 void RaAriaDestroy(struct RaAriaCtx *ctx)
 {
 	if (ctx != NULL) {
-		memset(ctx, 0, sizeof(struct RaAriaCtx));
+		_RaMemClear(ctx, sizeof(struct RaAriaCtx));
 		free(ctx);
 	}
 }
diff --git a/src/cipher/blowfish.c b/src/cipher/blowfish.c
index 2c3707a..2b76b56 100644
--- a/src/cipher/blowfish.c
+++ b/src/cipher/blowfish.c
@@ -317,7 +317,7 @@ int RaBlowfishCreate(const uint8_t *key, int keyLen, enum RaBlockCipherMode opMo
 void RaBlowfishDestroy(struct RaBlowfishCtx *ctx)
 {
 	if (ctx != NULL) {
-		memset(ctx, 0, sizeof(struct RaBlowfishCtx));
+		_RaMemClear(ctx, sizeof(struct RaBlowfishCtx));
 		free(ctx);
 	}
 }
diff --git a/src/cipher/des.c b/src/cipher/des.c
index 3d5a7f4..507ba54 100644
--- a/src/cipher/des.c
+++ b/src/cipher/des.c
@@ -569,7 +569,7 @@ int RaDesCreate(const uint8_t *key, enum RaDesKeyType keyType, enum RaBlockCiphe
 void RaDesDestroy(struct RaDesCtx *ctx)
 {
 	if (ctx != NULL) {
-		memset(ctx, 0, sizeof(struct RaDesCtx));
+		_RaMemClear(ctx, sizeof(struct RaDesCtx));
 		free(ctx);
 	}
 }
diff --git a/src/cipher/rc4.c b/src/cipher/rc4.c
index 5f08f42..0d8b4e1 100644
--- a/src/cipher/rc4.c
+++ b/src/cipher/rc4.c
@@ -22,7 +22,7 @@ int RaRc4Create(const uint8_t* key, int keyLen, struct RaRc4Ctx** ctxp)
 void RaRc4Destroy(struct RaRc4Ctx* ctx)
 {
 	if (ctx != NULL) {
-		memset(ctx, 0, sizeof(struct RaRc4Ctx));
+		_RaMemClear(ctx, sizeof(struct RaRc4Ctx));
 		free(ctx);
 	}
 }
diff --git a/src/cipher/seed.c b/src/cipher/seed.c
index 7c8bd69..eee6b22 100644
--- a/src/cipher/seed.c
+++ b/src/cipher/seed.c
@@ -322,7 +322,7 @@ int RaSeedCreate(const uint8_t *key, enum RaBlockCipherMode opMode, struct RaSee
 void RaSeedDestroy(struct RaSeedCtx *ctx)
 {
 	if (ctx != NULL) {
-		memset(ctx, 0, sizeof(struct RaSeedCtx));
+		_RaMemClear(ctx, sizeof(struct RaSeedCtx));
 		free(ctx);
 	}
 }
diff --git a/src/com/bignumber.c b/src/com/bignumber.c
index 5927da2..3d7d2df 100644
--- a/src/com/bignumber.c
+++ b/src/com/bignumber.c
@@ -67,7 +67,7 @@ void BnFree(struct RaBigNumber * bn)
 
 void BnClearFree(struct RaBigNumber* bn)
 {
-	memset(bn, 0, sizeof(struct RaBigNumber) + sizeof(bn_uint_t) * bn->max_length);
+	_RaMemClear(bn, sizeof(struct RaBigNumber) + sizeof(bn_uint_t) * bn->max_length);
 	free(bn);
 }
 
diff --git a/src/com/montexpmod.c b/src/com/montexpmod.c
index a780358..313da96 100644
--- a/src/com/montexpmod.c
+++ b/src/com/montexpmod.c
@@ -139,7 +139,7 @@ void RaMontDestroy(struct RaMontCtx* ctx)
 			BnClearFree(ctx->tmp);
 		if (ctx->mul != NULL)
 			BnClearFree(ctx->mul);
-		memset(ctx, 0, sizeof(struct RaMontCtx));
+		_RaMemClear(ctx, sizeof(struct RaMontCtx));
 		free(ctx);
 	}
 }
diff --git a/src/com/random.c b/src/com/random.c
index 6a45167..d7837b0 100644
--- a/src/com/random.c
+++ b/src/com/random.c
@@ -40,7 +40,7 @@ int RaRandomCreate(enum RaRandomAlgorithm algorithm, uint8_t *seed, int seed_len
 	}
 	result = RaRandomInit(ctx, algorithm, seed, seed_len);
 	if (result != RA_ERR_SUCCESS) {
-		memset(ctx, 0, sizeof(struct RaRandom));
+		_RaMemClear(ctx, sizeof(struct RaRandom));
 		free(ctx);
 		return result;
 	}
@@ -68,7 +68,7 @@ void RaRandomDestroy(struct RaRandom *ctx)
 				break;
 			}
 		}
-		memset(ctx, 0, sizeof(struct RaRandom));
+		_RaMemClear(ctx, sizeof(struct RaRandom));
 		free(ctx);
 	}
 }
@@ -111,7 +111,7 @@ static int RaRandomInit(struct RaRandom *ctx, enum RaRandomAlgorithm algorithm,
 	}
 
 	RaRandomUpdate(ctx, seed, seed_len);
-	memset(default_seed, 0, RA_RAND_SEED_LEN);
+	_RaMemClear(default_seed, RA_RAND_SEED_LEN);
 
 	return RA_ERR_SUCCESS;
 }
@@ -194,7 +194,7 @@ static void RaRandomUpdate(struct RaRandom *ctx, uint8_t *buffer, int buffer_len
 		RaMd5Update((struct RaMd5Ctx *)ctx->alg_ctx, count_buffer, 4);
 		memcpy(&alg_ctx.md5_ctx, ctx->alg_ctx, sizeof(struct RaMd5Ctx));
 		RaMd5Final(&alg_ctx.md5_ctx, ctx->buffer);
-		memset(&alg_ctx.md5_ctx, 0, sizeof(struct RaMd5Ctx));
+		_RaMemClear(&alg_ctx.md5_ctx, sizeof(struct RaMd5Ctx));
 		break;
 	case RA_RAND_SHA512:
 	case RA_RAND_SHA256:
@@ -202,7 +202,7 @@ static void RaRandomUpdate(struct RaRandom *ctx, uint8_t *buffer, int buffer_len
 		RaSha2Update((struct RaSha2Ctx *)ctx->alg_ctx, count_buffer, 4);
 		memcpy(&alg_ctx.sha2_ctx, ctx->alg_ctx, sizeof(struct RaSha2Ctx));
 		RaSha2Final(&alg_ctx.sha2_ctx, ctx->buffer);
-		memset(&alg_ctx.sha2_ctx, 0, sizeof(struct RaSha2Ctx));
+		_RaMemClear(&alg_ctx.sha2_ctx, sizeof(struct RaSha2Ctx));
 		break;
 	case RA_RAND_SHA160:
 	default:
@@ -210,7 +210,7 @@ static void RaRandomUpdate(struct RaRandom *ctx, uint8_t *buffer, int buffer_len
 		RaSha1Update((struct RaSha1Ctx *)ctx->alg_ctx, count_buffer, 4);
 		memcpy(&alg_ctx.sha1_ctx, ctx->alg_ctx, sizeof(struct RaSha1Ctx));
 		RaSha1Final(&alg_ctx.sha1_ctx, ctx->buffer);
-		memset(&alg_ctx.sha1_ctx, 0, sizeof(struct RaSha1Ctx));
+		_RaMemClear(&alg_ctx.sha1_ctx, sizeof(struct RaSha1Ctx));
 		break;
 	}
 	ctx->buffer_offset = 0;
diff --git a/src/digest/has160.c b/src/digest/has160.c
index 30a367a..ce1e2e8 100644
--- a/src/digest/has160.c
+++ b/src/digest/has160.c
@@ -34,7 +34,7 @@ int RaHas160Create(struct RaHas160Ctx **ctxp)
 void RaHas160Destroy(struct RaHas160Ctx *ctx)
 {
 	if (ctx != NULL) {
-		memset(ctx, 0, sizeof(struct RaHas160Ctx));
+		_RaMemClear(ctx, sizeof(struct RaHas160Ctx));
 		free(ctx);
 	}
 }
diff --git a/src/digest/md2.c b/src/digest/md2.c
index d25a2a0..5acad74 100644
--- a/src/digest/md2.c
+++ b/src/digest/md2.c
@@ -48,7 +48,7 @@ int RaMd2Create(struct RaMd2Ctx **ctxp)
 void RaMd2Destroy(struct RaMd2Ctx *ctx)
 {
 	if (ctx != NULL) {
-		memset(ctx, 0, sizeof(struct RaMd2Ctx));
+		_RaMemClear(ctx, sizeof(struct RaMd2Ctx));
 		free(ctx);
 	}
 }
diff --git a/src/digest/md4.c b/src/digest/md4.c
index 3a8ef2e..0dc637d 100644
--- a/src/digest/md4.c
+++ b/src/digest/md4.c
@@ -39,7 +39,7 @@ int RaMd4Create(struct RaMd4Ctx **ctxp)
 void RaMd4Destroy(struct RaMd4Ctx *ctx)
 {
 	if (ctx != NULL) {
-		memset(ctx, 0, sizeof(struct RaMd4Ctx));
+		_RaMemClear(ctx, sizeof(struct RaMd4Ctx));
 		free(ctx);
 	}
 }
diff --git a/src/digest/md5.c b/src/digest/md5.c
index 67fca1d..a110a1c 100644
--- a/src/digest/md5.c
+++ b/src/digest/md5.c
@@ -41,7 +41,7 @@ int RaMd5Create(struct RaMd5Ctx **ctxp)
 void RaMd5Destroy(struct RaMd5Ctx *ctx)
 {
 	if (ctx != NULL) {
-		memset(ctx, 0, sizeof(struct RaMd5Ctx));
+		_RaMemClear(ctx, sizeof(struct RaMd5Ctx));
 		free(ctx);
 	}
 }
diff --git a/src/digest/sha1.c b/src/digest/sha1.c
index eabed91..acda6d4 100644
--- a/src/digest/sha1.c
+++ b/src/digest/sha1.c
@@ -30,7 +30,7 @@ int RaSha1Create(struct RaSha1Ctx **ctxp)
 void RaSha1Destroy(struct RaSha1Ctx *ctx)
 {
 	if (ctx != NULL) {
-		memset(ctx, 0, sizeof(struct RaSha1Ctx));
+		_RaMemClear(ctx, sizeof(struct RaSha1Ctx));
 		free(ctx);
 	}
 }
diff --git a/src/digest/sha2.c b/src/digest/sha2.c
index 30f97e3..2aee405 100644
--- a/src/digest/sha2.c
+++ b/src/digest/sha2.c
@@ -35,7 +35,7 @@ int RaSha2Create(enum RaDigestAlgorithm algorithm, struct RaSha2Ctx **ctxp)
 void RaSha2Destroy(struct RaSha2Ctx *ctx)
 {
 	if (ctx != NULL) {
-		memset(ctx, 0, sizeof(struct RaSha2Ctx));
+		_RaMemClear(ctx, sizeof(struct RaSha2Ctx));
 		free(ctx);
 	}
 }
diff --git a/src/include/racrypt_com.h b/src/include/racrypt_com.h
index edb8046..2308fbe 100644
--- a/src/include/racrypt_com.h
+++ b/src/include/racrypt_com.h
@@ -3,6 +3,8 @@
 #ifndef __RA_COM_H__
 #define __RA_COM_H__
 
+#include <stddef.h>
+
 #ifdef __cplusplus
 extern "C" {
 #endif
@@ -15,6 +17,14 @@ extern "C" {
 #define RA_ERR_INVALID_PARAM				(-5)
 #define RA_ERR_INVALID_DATA					(-6)
 
+// clear secrets. unlike memset(), this is not removed by the compiler if the memory is released afterwards
+static inline void _RaMemClear(void *ptr, size_t len)
+{
+	volatile unsigned char *p = (volatile unsigned char *)ptr;
+	while (len-- > 0)
+		*p++ = 0;
+}
+
 
 #ifdef __cplusplus
 }
diff --git a/src/pk/rsa.c b/src/pk/rsa.c
index 01c0427..424f511 100644
--- a/src/pk/rsa.c
+++ b/src/pk/rsa.c
@@ -153,7 +153,7 @@ void RaRsaDestroyKeyPair(struct RaRsaKeyPair *key)
 	if (key->mont != NULL) {
 		RaMontDestroy(key->mont);
 	}
-	memset(key, 0, sizeof(struct RaRsaKeyPair));
+	_RaMemClear(key, sizeof(struct RaRsaKeyPair));
 	free(key);
 }
 
-- 
2.43.0


From aec34c47e28d5e662c670f112844f9148539f83f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:23 +0000
Subject: [PATCH 44/44] fix: import refuses an end marker inside a structure of
 given length

---
 src/pk/asn1.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pk/asn1.c b/src/pk/asn1.c
index e628ac2..326b972 100644
--- a/src/pk/asn1.c
+++ b/src/pk/asn1.c
@@ -194,6 +194,10 @@ static int ASN1Parse(struct RaAsn1Ctx *ctx)
 		}
 
 		if (ctx->cur->type == 0 && ctx->cur->dataLength == 0) {		// end-of-content
+			if (ctx->dataSP > 0 && ctx->dataStack[ctx->dataSP - 1].dataIndex >= 0) {	// not in an indefinite length object
+				result = RA_ERR_INVALID_DATA;
+				goto _EXIT;
+			}
 			result = ASN1Pop(ctx);
 			if (result == RA_ERR_OUT_OF_BUFFER) {
 				break;
-- 
2.43.0

