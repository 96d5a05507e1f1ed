From 4642a154bea44880176119ba54b017f265500ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:21 +0000
Subject: [PATCH 01/27] fix: e{m,n} must not match more than n times when n is
 0 or 1

The upper bound was only compared after a second occurrence had already
been appended, so {1,1}, {0,1} and {,1} accepted two occurrences and {0,0}
accepted one or more.
---
 parser_pattern.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/parser_pattern.go b/parser_pattern.go
index c645045..4722ac1 100644
--- a/parser_pattern.go
+++ b/parser_pattern.go
@@ -87,6 +87,13 @@ func (patt *pattern) getRule() *rule { return patt.rule }
 func (patt *pattern) parse(ctx *ParseContext) Ast {
 	return wrap(func(_ *ParseContext, _ Parser) Ast {
 		pos := ctx.Code.Pos()
+		if patt.max == 0 {
+			// at most zero occurrence: never consume anything
+			if patt.min > 0 {
+				return nil
+			}
+			return NewNativeArray([]Ast{})
+		}
 		resValue := patt.value.parse(ctx)
 		if resValue == nil {
 			ctx.Code.SetPos(pos)
@@ -96,7 +103,7 @@ func (patt *pattern) parse(ctx *ParseContext) Ast {
 			return NewNativeArray([]Ast{})
 		}
 		var matches []Ast = []Ast{resValue}
-		for {
+		for patt.max < 0 || len(matches) < patt.max {
 			pos2 := ctx.Code.Pos()
 			if !IsUndefined(patt.join) {
 				resJoin := patt.join.parse(ctx)
@@ -113,9 +120,6 @@ func (patt *pattern) parse(ctx *ParseContext) Ast {
 				break
 			}
 			matches = append(matches, resValue)
-			if patt.max > -1 && len(matches) >= int(patt.max) {
-				break
-			}
 		}
 		if patt.min > -1 && int(patt.min) > len(matches) {
 			ctx.Code.SetPos(pos)
-- 
2.43.0


From 1ad5f83ef62e8d53dec3c9f02f9b5115af2d81fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:55 +0000
Subject: [PATCH 02/27] fix: repetition of a value matching the empty string
 looped forever

E.g. ('a'?)* or (' '*)* never returned (and exhausted the memory).
---
 parser_pattern.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parser_pattern.go b/parser_pattern.go
index 4722ac1..ab364a0 100644
--- a/parser_pattern.go
+++ b/parser_pattern.go
@@ -119,6 +119,11 @@ func (patt *pattern) parse(ctx *ParseContext) Ast {
 				ctx.Code.SetPos(pos2)
 				break
 			}
+			// an occurrence which consumes nothing could be repeated forever:
+			// take no more of them than what min requires.
+			if ctx.Code.Pos() == pos2 && len(matches) >= patt.min {
+				break
+			}
 			matches = append(matches, resValue)
 		}
 		if patt.min > -1 && int(patt.min) > len(matches) {
-- 
2.43.0


From 226099a5ac435b77f0e51a1a8d627eb68d462c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:57 +0000
Subject: [PATCH 03/27] fix: parsing input nested deeper than 1024 rules
 panicked

The parse stack was a fixed array of 1024 frames: rules recursing deeper
than that (e.g. L: 'a' L | 'a' with 1100 a's) crashed with an
index-out-of-range panic. Let the stack grow.
---
 parsectx.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parsectx.go b/parsectx.go
index fa204ad..6c22eeb 100644
--- a/parsectx.go
+++ b/parsectx.go
@@ -21,7 +21,7 @@ type ParseContext struct {
 
 	numRules    int
 	frames      [][]*frame // 2D: [len(code.text) + 1][numRules]
-	stack       [1024]*frame
+	stack       []*frame
 	stackLength int
 	loopStack   []string
 }
@@ -86,7 +86,7 @@ func (ctx *ParseContext) loopStackPush(name string) { ctx.loopStack = append(ctx
 func (ctx *ParseContext) loopStackPop()             { ctx.loopStack = ctx.loopStack[:len(ctx.loopStack)-1] }
 func (ctx *ParseContext) stackPeek(skip int) *frame { return ctx.stack[ctx.stackLength-1-skip] }
 func (ctx *ParseContext) stackPush(x Parser) {
-	ctx.stack[ctx.stackLength] = ctx.getFrame(x)
+	ctx.stack = append(ctx.stack[:ctx.stackLength], ctx.getFrame(x))
 	ctx.stackLength++
 }
 func (ctx *ParseContext) stackPop() { ctx.stackLength-- }
-- 
2.43.0


From c7aa38858223f5d95ac73ec04cac4fc7c6e59942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:59 +0000
Subject: [PATCH 04/27] fix: coordinates of positions inside the last token of
 a TokenStream

coords() computed the offset within the last token relatively to the
beginning of the previous one (or of the stream), so lines and columns
reported for the last token were wrong.
---
 codestream_token.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/codestream_token.go b/codestream_token.go
index 63e94cc..ab51acd 100644
--- a/codestream_token.go
+++ b/codestream_token.go
@@ -305,12 +305,12 @@ func (code *TokenStream) coords(workOffset int) coord {
 	// find most advanced token number, such that the following token would begin
 	// after workOffset.
 	nToken := 0
-	var token Token
+	token := code.tokens[0]
 	for {
+		token = code.tokens[nToken]
 		if nToken >= len(code.tokens)-1 {
 			break // don't panic, it can make sense when a token was inserted
 		}
-		token = code.tokens[nToken]
 		if workOffset < token.WorkOffset+len(token.Repr) {
 			break
 		}
-- 
2.43.0


From b768fcdd51445001418b864d88dd70f5e7a945fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:01 +0000
Subject: [PATCH 05/27] fix: TokenStreamFromGoCode never reported lexical
 errors

Errors were only checked right after initializing the scanner, i.e. before
anything was scanned: invalid Go code was silently accepted. They were also
accumulated in a global, so once some text had failed during initialization
the next one to do so panicked.
---
 codestream_token.go | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/codestream_token.go b/codestream_token.go
index ab51acd..ebc4f17 100644
--- a/codestream_token.go
+++ b/codestream_token.go
@@ -331,27 +331,18 @@ func (code *TokenStream) coords(workOffset int) coord {
 	}
 }
 
-// use by error handler below
-var scanErrors []error
-
-func handleErrors(pos token.Position, msg string) {
-	scanErrors = append(scanErrors, scannerError{pos, msg})
-}
-
 // TokenStreamFromGoCode is a special function transforming
 // some go code into a TokenStream. You can then call
 // `yourGrammar.ParseTokens(ts TokenStream)` directly.
 func TokenStreamFromGoCode(source string) (*TokenStream, error) {
 	var scan goscanner.Scanner
+	var scanErrors []error
+	handleErrors := func(pos token.Position, msg string) {
+		scanErrors = append(scanErrors, scannerError{pos, msg})
+	}
 	fset := token.NewFileSet()
 	file := fset.AddFile("", fset.Base(), len(source))
 	scan.Init(file, []byte(source), handleErrors, 0 /*goscanner.ScanComments*/)
-	if scan.ErrorCount > 0 {
-		if scan.ErrorCount != len(scanErrors) {
-			panic("assert") // errors must have been collected
-		}
-		return nil, errors.Join(scanErrors...)
-	}
 	tokens := []Token{}
 	workOffset := 0
 	prev := ""
@@ -391,6 +382,9 @@ func TokenStreamFromGoCode(source string) (*TokenStream, error) {
 		tokens = append(tokens, Token{s, int(pos) - 1, workOffset})
 		b.WriteString(s)
 	}
+	if len(scanErrors) > 0 {
+		return nil, errors.Join(scanErrors...)
+	}
 	return NewTokenStream(source, tokens), nil
 }
 
-- 
2.43.0


From 997b7a8c8a1bff788c9840dcfd3dcf7f0ff7ded5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:00 +0000
Subject: [PATCH 06/27] fix: tokens fused together by TokenStreamFromGoCode
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

Tokens are joined without any separator, except after ASCII words. Hence
"var α β" became "var αβ", "a < -b" became "a<-b" and "x / *y" became
"x/*y". Separate tokens which would otherwise be read as another token.
---
 codestream_token.go | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/codestream_token.go b/codestream_token.go
index ebc4f17..bde6dd6 100644
--- a/codestream_token.go
+++ b/codestream_token.go
@@ -377,6 +377,9 @@ func TokenStreamFromGoCode(source string) (*TokenStream, error) {
 				s = tokStr
 			}
 		}
+		if s != "" && s[0] != ' ' && wouldFuse(prev, s) {
+			s = " " + s
+		}
 		workOffset += len(prev)
 		prev = s
 		tokens = append(tokens, Token{s, int(pos) - 1, workOffset})
@@ -388,6 +391,24 @@ func TokenStreamFromGoCode(source string) (*TokenStream, error) {
 	return NewTokenStream(source, tokens), nil
 }
 
+// Tell whether joining 2 successive tokens would be read as something else than
+// `prev` followed by `s`, e.g. "α","β" -> "αβ", or "<","-" -> "<-".
+func wouldFuse(prev, s string) bool {
+	if prev == "" {
+		return false
+	}
+	if prev == "." && s == "." {
+		return true // 3 of them are an ellipsis
+	}
+	var scan goscanner.Scanner
+	fset := token.NewFileSet()
+	joined := []byte(prev + s)
+	scan.Init(fset.AddFile("", fset.Base(), len(joined)), joined, nil, 0)
+	scan.Scan()
+	pos, _, _ := scan.Scan()
+	return int(pos)-1 != len(prev)
+}
+
 type scannerError struct {
 	pos token.Position
 	msg string
-- 
2.43.0


From 41cb2e3f8f731876243e1a2841cba41313e08b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:30 +0000
Subject: [PATCH 07/27] fix: NativeMap.IsEmpty() was inverted

---
 native_map.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/native_map.go b/native_map.go
index 2517506..c4a58bc 100644
--- a/native_map.go
+++ b/native_map.go
@@ -75,10 +75,7 @@ func (nm *NativeMap) Keys() []string {
 }
 
 func (nm *NativeMap) IsEmpty() bool {
-	for range nm.vals {
-		return true
-	}
-	return false
+	return len(nm.vals) == 0
 }
 
 func (nm *NativeMap) GetExists(k string) (Ast, bool) {
-- 
2.43.0


From db8c59eafce7fcd4d7bdd42ec00c5aaaa93f8c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:32 +0000
Subject: [PATCH 08/27] fix: PeekLines() with a range located out of the text

A range of lines entirely before or after the text panicked or returned
unrelated text. Also let RuneStream.PeekLines() peek the current line, as
documented in CodeStream and as TokenStream does.
---
 codestream_rune.go  | 7 +++++--
 codestream_token.go | 3 +++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/codestream_rune.go b/codestream_rune.go
index fba68a4..f5a3f63 100644
--- a/codestream_rune.go
+++ b/codestream_rune.go
@@ -91,8 +91,8 @@ func (code *RuneStream) PeekRunes(n int) string {
 // In that case, it will peek from the minimum to the maximum of the series.
 // When only 1 value is given, a second value of 0 is implied to create a range.
 func (code *RuneStream) PeekLines(n ...int) string {
-	if len(n) <= 0 {
-		return ""
+	if len(n) == 0 {
+		n = []int{0}
 	} else if len(n) == 1 {
 		n = []int{n[0], 0} // implied 0
 	}
@@ -106,6 +106,9 @@ func (code *RuneStream) PeekLines(n ...int) string {
 			max = n
 		}
 	}
+	if code.Line()+max < 0 || code.Line()+min > len(code.lineStarts)-1 {
+		return "" // the whole range is out of the text
+	}
 	start := code.lineStarts[helpers.Max(0, code.Line()+min)]
 	var end int
 	endLine := helpers.Min(len(code.lineStarts)-1, code.Line()+max)
diff --git a/codestream_token.go b/codestream_token.go
index bde6dd6..5a0f71e 100644
--- a/codestream_token.go
+++ b/codestream_token.go
@@ -181,6 +181,9 @@ func (code *TokenStream) PeekLines(n ...int) string {
 			max = n
 		}
 	}
+	if code.Line()+max < 0 || code.Line()+min > len(code.lineStarts)-1 {
+		return "" // the whole range is out of the text
+	}
 	start := code.lineStarts[helpers.Max(0, code.Line()+min)]
 	var end int
 	endLine := helpers.Min(len(code.lineStarts)-1, code.Line()+max)
-- 
2.43.0


From bb79c39e7f87382b9797dbe02208a326fd8ec6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:28 +0000
Subject: [PATCH 09/27] fix: tracing a SkipCache rule which fails dereferenced
 nil

---
 packrat.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/packrat.go b/packrat.go
index 06790b4..7d9ea7a 100644
--- a/packrat.go
+++ b/packrat.go
@@ -90,7 +90,11 @@ func loopify(fparse parseFunc, x Parser) parseFunc {
 		if x.getRule().skipCache {
 			result := fparse(ctx)
 			if showLog {
-				ctx.log(Cyan("`->:")+" "+helpers.Escape(result.String())+" "+BoldBlack(helpers.TypeOfToString(result)), opts)
+				cs := "nil"
+				if result != nil {
+					cs = result.String()
+				}
+				ctx.log(Cyan("`->:")+" "+helpers.Escape(cs)+" "+BoldBlack(helpers.TypeOfToString(result)), opts)
 			}
 			return result
 		}
-- 
2.43.0


From fcda827fdea6b93a6e9b21d0e1b7f9f666367c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:30 +0000
Subject: [PATCH 10/27] fix: TRACE=loop,line=N panicked on left recursion
 located on another line

The loop stack was popped even when nothing had been pushed onto it.
---
 packrat.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/packrat.go b/packrat.go
index 7d9ea7a..19e1caa 100644
--- a/packrat.go
+++ b/packrat.go
@@ -150,7 +150,8 @@ func loopify(fparse parseFunc, x Parser) parseFunc {
 					return result
 				} else {
 					frame.loopstage = 3
-					if opts.Loop && ((opts.FilterLine < 0) || ctx.Code.Line() == opts.FilterLine) {
+					traceLoop := opts.Loop && ((opts.FilterLine < 0) || ctx.Code.Line() == opts.FilterLine)
+					if traceLoop {
 						ctx.loopStackPush(x.getRule().name)
 						// if false {
 						//  line := ctx.Code.Line()
@@ -201,7 +202,7 @@ func loopify(fparse parseFunc, x Parser) parseFunc {
 							break
 						}
 					}
-					if opts.Loop {
+					if traceLoop {
 						ctx.loopStackPop()
 					}
 					ctx.wipeWith(frame, false)
-- 
2.43.0


From 12382c2f0b1ac0db8429760ea92029c6d271ab2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:33 +0000
Subject: [PATCH 11/27] fix: Debug{true} kept tracing all later parses when a
 callback panicked

Panicking with a ParseError is the documented way to report errors, the
temporary stack tracing must be undone in that case too.
---
 grammar.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/grammar.go b/grammar.go
index 468e3ed..6e3113a 100644
--- a/grammar.go
+++ b/grammar.go
@@ -115,9 +115,11 @@ func (gm *Grammar) parse(ctx *ParseContext) Ast {
 	if gm.rank == nil {
 		panic("Grammar.rank is nil")
 	}
-	result := gm.rank.parse(ctx)
-	// undo temporary stack tracing
-	gm.TraceOptions.Stack = oldTrace
+	result := func() Ast {
+		// undo temporary stack tracing (even when a rule callback panics)
+		defer func() { gm.TraceOptions.Stack = oldTrace }()
+		return gm.rank.parse(ctx)
+	}()
 	// if parse is incomplete, compute error message
 	if ctx.Code.Pos() != ctx.Code.workLength() {
 		// find the maximum parsed entity
-- 
2.43.0


From 1c7f9e3cabb7c9aa0563fb787a2c3b5e4136d5e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:34 +0000
Subject: [PATCH 12/27] fix: LastNRunes() panicked on a valid U+FFFD

U+FFFD is a valid rune when encoded on 3 bytes; only a size of 0 or 1
denotes an encoding error. Tracing or PeekRunes(-n) on a text containing it
panicked.
---
 helpers/helpers.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/helpers/helpers.go b/helpers/helpers.go
index cc34f46..b9e58d5 100644
--- a/helpers/helpers.go
+++ b/helpers/helpers.go
@@ -144,7 +144,7 @@ func LastNRunes(abc string, nTake int) string {
 			break
 		}
 		c, csize := utf8.DecodeLastRuneInString(slice)
-		if c == utf8.RuneError {
+		if c == utf8.RuneError && csize <= 1 {
 			panic(fmt.Sprintf("RuneError: %q\n", c))
 		}
 		totalSize += csize // csize is char len in bytes for rune c
@@ -164,7 +164,7 @@ func LastNRunesReversed(abc string, nTake int) string {
 	var b strings.Builder
 	for i := len(abc) - sizeinit; i >= len(abc)-sizeinit-nTake+1; i-- {
 		r, size := utf8.DecodeLastRuneInString(slice)
-		if r == utf8.RuneError {
+		if r == utf8.RuneError && size <= 1 {
 			break
 		}
 		b.WriteRune(r)
-- 
2.43.0


From da96c0b4daf4651744ace2f032a2c462b772cece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:37 +0000
Subject: [PATCH 13/27] fix: lookahead must return NativeUndefined when it
 matches

As documented in the README; it returned the production of the looked ahead
expression.
---
 parser_lookahead.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parser_lookahead.go b/parser_lookahead.go
index 8c9bcf8..2cddf6c 100644
--- a/parser_lookahead.go
+++ b/parser_lookahead.go
@@ -36,7 +36,10 @@ func (look *lookahead) parse(ctx *ParseContext) Ast {
 		pos := ctx.Code.Pos()
 		result := look.expr.parse(ctx) // check whether it parses...
 		ctx.Code.SetPos(pos)           // ...but revert to prev pos if so
-		return result
+		if result == nil {
+			return nil
+		}
+		return NewNativeUndefined()
 	}, look)(ctx)
 }
 
-- 
2.43.0


From 2acd8b96063e7d9e78931ffbb2936288042a0ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:31 +0000
Subject: [PATCH 14/27] fix: left recursion growing from stale cached results

While a left recursion grows, the rules between its head and its recursive
call are wiped from the cache. Rules which got the result of such a rule
from the cache were not, although they depend on the seed as well:
with H: X | Y | 'b', X: M 'x', Y: M 'y', M: H 'a', text "bay" did not
parse, because Y was only ever evaluated against the initial seed.
---
 packrat.go  |  1 +
 parsectx.go | 14 ++++++++++++++
 2 files changed, 15 insertions(+)

diff --git a/packrat.go b/packrat.go
index 19e1caa..4824ff5 100644
--- a/packrat.go
+++ b/packrat.go
@@ -118,6 +118,7 @@ func loopify(fparse parseFunc, x Parser) parseFunc {
 						ctx.log(Cyan("`-hit:")+" nil", opts)
 					}
 				}
+				ctx.spreadWipes(frame)
 				ctx.Code.SetPos(frame.endpos)
 				return frame.result
 			}
diff --git a/parsectx.go b/parsectx.go
index 6c22eeb..53051dc 100644
--- a/parsectx.go
+++ b/parsectx.go
@@ -134,6 +134,20 @@ func (ctx *ParseContext) wipeWith(frame_ *frame, makeStash bool) stash {
 	}
 }
 
+// When the cached frame being hit depends upon the seed of some left recursion
+// which is still growing, then so do the callers located in between. Make sure
+// these will be wiped as well.
+func (ctx *ParseContext) spreadWipes(hit *frame) {
+	for i := ctx.stackLength - 2; i >= 0 && ctx.stack[i].pos == hit.pos; i-- {
+		head := ctx.stack[i]
+		if head.wipemask != nil && head.wipemask[hit.id] {
+			for _, caller := range ctx.stack[i+1 : ctx.stackLength-1] {
+				head.wipemask[caller.id] = true
+			}
+		}
+	}
+}
+
 func (ctx *ParseContext) restoreWith(stash_ stash) {
 	for i, frame := range stash_ {
 		if frame != nil {
-- 
2.43.0


From 6a1c0308143348c910e8e22e40ee5c2dac8bef71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:46 +0000
Subject: [PATCH 15/27] fix: labelled optional directly inside a sequence
 panicked

In `a:A (b:B)?` the sequence merges the production of the optional part with
its map, but that part was a bare value: parsing panicked with "assert", or lost
the label when nothing else was labelled.
---
 parser_existential.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/parser_existential.go b/parser_existential.go
index 5d48812..755b746 100644
--- a/parser_existential.go
+++ b/parser_existential.go
@@ -15,13 +15,9 @@ func newExistential(it Ast) *existential {
 	return ex
 }
 
-func (ex *existential) handlesChildLabel() bool {
-	if ex.rule.parent != nil {
-		return ex.rule.parent.handlesChildLabel()
-	} else {
-		return false
-	}
-}
+// In `a:A (b:B)?` the sequence merges the map produced by the optional part,
+// therefore the labelled child must produce that map on its own.
+func (ex *existential) handlesChildLabel() bool { return false }
 
 func (ex *existential) getRule() *rule { return ex.rule }
 
-- 
2.43.0


From b4c09a217e873c737e6674bd59a1e48d1d68740d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:55 +0000
Subject: [PATCH 16/27] fix: successive dots were fused into an ellipsis by
 TokenStreamFromGoCode

---
 codestream_token.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codestream_token.go b/codestream_token.go
index 5a0f71e..20b7853 100644
--- a/codestream_token.go
+++ b/codestream_token.go
@@ -400,7 +400,7 @@ func wouldFuse(prev, s string) bool {
 	if prev == "" {
 		return false
 	}
-	if prev == "." && s == "." {
+	if strings.TrimPrefix(prev, " ") == "." && s[0] == '.' {
 		return true // 3 of them are an ellipsis
 	}
 	var scan goscanner.Scanner
-- 
2.43.0


From 37f940b6f104201a83e5d098f7ecaae48c46073a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:48 +0000
Subject: [PATCH 17/27] fix: TraceOptionsFromEnvironmentOrUse() ignored the
 options to use

When the TRACE environment variable is missing, the options which were given
must be returned, as documented; muted ones were, so that DefaultTraceOptions()
was always muted.
---
 traceoptions.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/traceoptions.go b/traceoptions.go
index a5994d5..c7f2e5e 100644
--- a/traceoptions.go
+++ b/traceoptions.go
@@ -57,7 +57,7 @@ func Verbose() *TraceOptions {
 // trace options from it, starting from a Mute() initial state. If
 // the envvar is missing, defaultOpts is returned instead.
 func TraceOptionsFromEnvironmentOrUse(defaultOpts *TraceOptions) *TraceOptions {
-	return checkEnvironmentForTraceOptions(Mute())
+	return checkEnvironmentForTraceOptions(defaultOpts)
 }
 
 // Given an initial set of trace options, this will attempt to read
-- 
2.43.0


From aaa03b80741ff9b0457ddba348544e98bc871bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:05 +0000
Subject: [PATCH 18/27] fix: left recursion nested in another one growing from
 stale cached results

---
 parsectx.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/parsectx.go b/parsectx.go
index 53051dc..5507e48 100644
--- a/parsectx.go
+++ b/parsectx.go
@@ -117,6 +117,7 @@ func (ctx *ParseContext) wipeWith(frame_ *frame, makeStash bool) stash {
 	stashCount := 0
 	pos := frame_.pos
 	posFrames := ctx.frames[pos]
+	ctx.nestWipes(frame_)
 	for i, bWipe := range frame_.wipemask {
 		if !bWipe {
 			continue
@@ -148,6 +149,27 @@ func (ctx *ParseContext) spreadWipes(hit *frame) {
 	}
 }
 
+// When a frame to be wiped is itself the one of a left recursion, what was cached
+// for the rules of that nested recursion must be wiped along with it.
+func (ctx *ParseContext) nestWipes(head *frame) {
+	posFrames := ctx.frames[head.pos]
+	for again := true; again; {
+		again = false
+		for i, bWipe := range head.wipemask {
+			if !bWipe || posFrames[i] == nil {
+				continue
+			}
+			for k, bNested := range posFrames[i].wipemask {
+				isGrowing := posFrames[k] != nil && posFrames[k].loopstage > 0
+				if bNested && !isGrowing && !head.wipemask[k] {
+					head.wipemask[k] = true
+					again = true
+				}
+			}
+		}
+	}
+}
+
 func (ctx *ParseContext) restoreWith(stash_ stash) {
 	for i, frame := range stash_ {
 		if frame != nil {
-- 
2.43.0


From 92ddf04983b3dc2a38b7454237c4e94e9c9cb079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:05 +0000
Subject: [PATCH 19/27] fix: failures of left-recursive rules were not cached

---
 packrat.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packrat.go b/packrat.go
index 4824ff5..f4f803c 100644
--- a/packrat.go
+++ b/packrat.go
@@ -147,7 +147,7 @@ func loopify(fparse parseFunc, x Parser) parseFunc {
 						ctx.log(Yellow("`--- loop nil --- "), opts)
 					}
 					frame.loopstage = 0
-					// cacheSet(frame, nil) // unneeded (already nil)
+					frame.cacheSet(nil, ctx.Code.Pos())
 					return result
 				} else {
 					frame.loopstage = 3
-- 
2.43.0


From 127ff3770d2325c0c4a772831b2112448a07f49f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:41 +0000
Subject: [PATCH 20/27] fix: results cached while a left recursion was growing
 were kept afterwards

---
 packrat.go  |  7 ++-----
 parsectx.go | 34 ++++------------------------------
 2 files changed, 6 insertions(+), 35 deletions(-)

diff --git a/packrat.go b/packrat.go
index f4f803c..2755c26 100644
--- a/packrat.go
+++ b/packrat.go
@@ -18,7 +18,6 @@ type (
 		id        int
 		param     Ast // used in ref.go or joeson.coffee:536
 	}
-	stash []*frame
 )
 
 func (f frame) toString() string {
@@ -183,14 +182,13 @@ func loopify(fparse parseFunc, x Parser) parseFunc {
 						// 	fmt.Println(s) // also this way in original joeson.coffee
 						// }
 					}
-					var bestStash stash = nil
 					var bestEndPos int = 0
 					var bestResult Ast = nil
 					for result != nil {
 						if frame.wipemask == nil {
 							panic("where's my wipemask")
 						}
-						bestStash = ctx.wipeWith(frame, true)
+						ctx.wipeWith(frame)
 						bestResult = result
 						bestEndPos = ctx.Code.Pos()
 						frame.cacheSet(bestResult, bestEndPos)
@@ -206,8 +204,7 @@ func loopify(fparse parseFunc, x Parser) parseFunc {
 					if traceLoop {
 						ctx.loopStackPop()
 					}
-					ctx.wipeWith(frame, false)
-					ctx.restoreWith(bestStash)
+					ctx.wipeWith(frame)
 					ctx.Code.SetPos(bestEndPos)
 					if showLog {
 						ctx.log(Yellow("`--- loop done! --- ")+"best result: "+helpers.Escape(bestResult.String()), opts)
diff --git a/parsectx.go b/parsectx.go
index 5507e48..0172437 100644
--- a/parsectx.go
+++ b/parsectx.go
@@ -104,34 +104,16 @@ func (ctx *ParseContext) getFrame(x Parser) *frame {
 	}
 }
 
-func (ctx *ParseContext) wipeWith(frame_ *frame, makeStash bool) stash {
-	// return *stash, or nil if !makeStash
-	// default for makeStash was true in coffee
+// Forget what was cached for the rules depending upon the seed of a left recursion.
+func (ctx *ParseContext) wipeWith(frame_ *frame) {
 	if frame_.wipemask == nil {
 		panic(errors.New("need frame.wipemask to know what to wipe"))
 	}
-	var stash_ []*frame
-	if makeStash {
-		stash_ = make([]*frame, ctx.numRules)
-	}
-	stashCount := 0
-	pos := frame_.pos
-	posFrames := ctx.frames[pos]
 	ctx.nestWipes(frame_)
 	for i, bWipe := range frame_.wipemask {
-		if !bWipe {
-			continue
-		}
-		if makeStash {
-			stash_[i] = posFrames[i]
+		if bWipe {
+			ctx.frames[frame_.pos][i] = nil
 		}
-		posFrames[i] = nil
-		stashCount++
-	}
-	if stash_ != nil {
-		return stash_
-	} else {
-		return nil
 	}
 }
 
@@ -170,14 +152,6 @@ func (ctx *ParseContext) nestWipes(head *frame) {
 	}
 }
 
-func (ctx *ParseContext) restoreWith(stash_ stash) {
-	for i, frame := range stash_ {
-		if frame != nil {
-			ctx.frames[frame.pos][i] = frame
-		}
-	}
-}
-
 // just another way to produce a NewParseError. Perhaps the latter should be unimported
 func (ctx *ParseContext) Error(s string) ParseError {
 	return NewParseError(ctx, s)
-- 
2.43.0


From b13b0a0537351ffcf4e35d3da7ca553470fe9ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:50 +0000
Subject: [PATCH 21/27] fix: a regular expression which fails searched the
 whole rest of the text

---
 parser_regex.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/parser_regex.go b/parser_regex.go
index d1901fd..8263d7e 100644
--- a/parser_regex.go
+++ b/parser_regex.go
@@ -14,13 +14,17 @@ type regex struct {
 	*rule
 	reStr string
 	re    regexp.Regexp
+	// re, only tried at the current position: where it does not match,
+	// `re` would search all of the text which follows.
+	anchored regexp.Regexp
 }
 
 func newRegexFromString(sRegex string) *regex {
 	if compiledRegexp, e := regexp.Compile("(" + sRegex + ")"); e != nil {
 		panic("Invalid regex: " + sRegex)
 	} else {
-		re := &regex{newAttr(), newRule(), sRegex, *compiledRegexp}
+		anchored := regexp.MustCompile("^(?:" + compiledRegexp.String() + ")")
+		re := &regex{newAttr(), newRule(), sRegex, *compiledRegexp, *anchored}
 		re.rule.node = re
 		return re
 	}
@@ -34,7 +38,7 @@ func (re *regex) handlesChildLabel() bool { return false }
 func (re *regex) prepare()                {}
 func (re *regex) parse(ctx *ParseContext) Ast {
 	return wrap(func(_ *ParseContext, _ Parser) Ast {
-		if didMatch, sMatch := ctx.Code.MatchRegexp(re.re); !didMatch {
+		if didMatch, sMatch := ctx.Code.MatchRegexp(re.anchored); !didMatch {
 			return nil
 		} else {
 			return NewNativeString(sMatch)
-- 
2.43.0


From d9ef6e290dd420358428fa32535695e832015b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:04 +0000
Subject: [PATCH 22/27] fix: SkipSetup did not mute the listing of joeson's own
 rules

---
 parser_rank.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/parser_rank.go b/parser_rank.go
index a2267b2..3cf9c1b 100644
--- a/parser_rank.go
+++ b/parser_rank.go
@@ -26,7 +26,14 @@ func rankFromLines(lines []Line, rankname string, options GrammarOptions) *rank
 			// Lazy, so this will only get called if the rules have string rules (SLine)
 			// and optionalLazyGrammar was left empty. getgetRule()'s `case SLine:` is
 			// the only place that needs a grammar.
-			return NewJoesonWithOptions(options.TraceOptions)
+			traceOptions := options.TraceOptions
+			if traceOptions.SkipSetup {
+				traceOptions = traceOptions.Copy()
+				traceOptions.Stack = false
+				traceOptions.Loop = false
+				traceOptions.Grammar = false
+			}
+			return NewJoesonWithOptions(traceOptions)
 		})
 	}
 	rank := newEmptyRank(rankname)
-- 
2.43.0


From 60fb62e1d3a84bfed26d97a6949f2bd6412fa62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:14 +0000
Subject: [PATCH 23/27] fix: rules named with Named() and given as a Parser
 were not rules

Named() makes a cLine of it, which is a Parser as well: it was wrapped once more,
and the parser of the rule was then not the one which is parsed. Such rules were
never memoized, and parsing with one as the start of a grammar crashed.
---
 line.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/line.go b/line.go
index 7ab54b4..c99caf5 100644
--- a/line.go
+++ b/line.go
@@ -110,6 +110,8 @@ func rule2line(x any) Line {
 		return newSLine(v)
 	case sLine:
 		return O(v.Str)
+	case cLine:
+		return v
 	case Parser:
 		return newCLine(v)
 	case ALine:
-- 
2.43.0


From ce89b256f39f2ae2e8749a9d3903641254cda5d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:14 +0000
Subject: [PATCH 24/27] fix: the callback and options of a line inside of
 another were dropped

In I(Named("X", O("'a'", callback))) the callback was never called.
---
 line.go        |  1 +
 parseoption.go | 13 +++++++++++++
 2 files changed, 14 insertions(+)

diff --git a/line.go b/line.go
index c99caf5..34a5275 100644
--- a/line.go
+++ b/line.go
@@ -161,6 +161,7 @@ func getRule(
 	case ILine:
 		panic("assert") // ILine is impossible here
 	case OLine:
+		attrs = attrs.over(v.parseOptions)
 		v.parseOptions = attrs
 		answer = v.toRule(rank_, parentRule, oLineNaming{name: name}, opts, lazyGrammar)
 		if answer.getRule().name == "" {
diff --git a/parseoption.go b/parseoption.go
index 626fbbc..021f40f 100644
--- a/parseoption.go
+++ b/parseoption.go
@@ -54,3 +54,16 @@ func newParseOptions() *parseOptions {
 		cb:        nil,
 	}
 }
+
+// over gives the options of a line whose content is another line, having options of
+// its own: both hold. When both have a parse function, the outermost one is used.
+func (opts *parseOptions) over(inner *parseOptions) *parseOptions {
+	both := *opts
+	both.debug = opts.debug || inner.debug
+	both.skipLog = opts.skipLog || inner.skipLog
+	both.skipCache = opts.skipCache || inner.skipCache
+	if both.cb == nil {
+		both.cb = inner.cb
+	}
+	return &both
+}
-- 
2.43.0


From 1f6dfaa30f675accf68385ffdd19f4af42e88afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:17 +0000
Subject: [PATCH 25/27] fix: GetOrigin() dropped the name of the rule

---
 attr.go | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/attr.go b/attr.go
index dbea2b7..8d778ed 100644
--- a/attr.go
+++ b/attr.go
@@ -7,10 +7,11 @@ package joeson
 // - Embed an `*Attr` field,
 // - Have a `String() string` method.
 type Attr struct {
-	Code  string
-	Start int
-	End   int
-	Line  int
+	Code     string
+	Start    int
+	End      int
+	Line     int
+	RuleName string
 }
 
 func NewAttr() *Attr {
@@ -37,14 +38,16 @@ func (attr *Attr) SetOrigin(o Origin) {
 	attr.Start = o.Start
 	attr.End = o.End
 	attr.Line = o.Line
+	attr.RuleName = o.RuleName
 }
 
 func (attr *Attr) GetOrigin() Origin {
 	return Origin{
-		Code:  attr.Code,
-		Line:  attr.Line,
-		Start: attr.Start,
-		End:   attr.End,
+		Code:     attr.Code,
+		Line:     attr.Line,
+		Start:    attr.Start,
+		End:      attr.End,
+		RuleName: attr.RuleName,
 	}
 }
 
-- 
2.43.0


From 190a6d2b562edee926f6680e6327453aa35c9b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:17 +0000
Subject: [PATCH 26/27] fix: labels @ and & extended cached maps in place

---
 parser_sequence.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/parser_sequence.go b/parser_sequence.go
index 3b008c4..ca64b05 100644
--- a/parser_sequence.go
+++ b/parser_sequence.go
@@ -162,13 +162,13 @@ func (seq *sequence) parseAsObject(ctx *ParseContext) Ast {
 		switch label {
 		case "&":
 			if IsUndefined(results) {
-				results = res
+				results = copyMap(res)
 			} else {
-				results = merge(res, results)
+				results = merge(copyMap(res), results)
 			}
 		case "@":
 			if IsUndefined(results) {
-				results = res
+				results = copyMap(res)
 			} else {
 				results = merge(results, res)
 			}
@@ -204,6 +204,19 @@ func (seq *sequence) forEachChild(f func(Parser) Parser) Parser {
 	return seq
 }
 
+// Results may be in the cache, so that maps must not be extended in place.
+func copyMap(it Ast) Ast {
+	nm, isMap := it.(*NativeMap)
+	if !isMap {
+		return it
+	}
+	copied := NewEmptyNativeMap()
+	for _, k := range nm.Keys() {
+		copied.Set(k, nm.GetOrPanic(k))
+	}
+	return copied
+}
+
 // Port of lib/helpers.js:extend() in a less general way (Ast-specific)
 // Extend a source object with the properties of a newcomer object (shallow copy).
 // The modified `toExtend` object is returned.
-- 
2.43.0


From e3ebe0561932b724b2c555d70e9cb19485959567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:17 +0000
Subject: [PATCH 27/27] fix: an absent optional labelled & panicked

---
 parser_sequence.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser_sequence.go b/parser_sequence.go
index ca64b05..d6431fe 100644
--- a/parser_sequence.go
+++ b/parser_sequence.go
@@ -163,7 +163,7 @@ func (seq *sequence) parseAsObject(ctx *ParseContext) Ast {
 		case "&":
 			if IsUndefined(results) {
 				results = copyMap(res)
-			} else {
+			} else if !IsUndefined(res) {
 				results = merge(copyMap(res), results)
 			}
 		case "@":
-- 
2.43.0

