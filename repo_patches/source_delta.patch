From 37be3cc24cf7b300cffe4d862894ff12e404ac78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:32 +0000
Subject: [PATCH 01/39] fix: do not treat -v- or -v=1 as a bundle of short
 options

Stripping a flag letter off such a token left a synthetic '--' terminator or
a '-=1' positional value that the user never typed.
---
 packages/core/src/primitives.ts | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/packages/core/src/primitives.ts b/packages/core/src/primitives.ts
index 33cec13..fdbc552 100644
--- a/packages/core/src/primitives.ts
+++ b/packages/core/src/primitives.ts
@@ -51,6 +51,16 @@ const EMPTY_LEADING_NAMES: ReadonlySet<string> = new Set();
 /** @internal */
 export type OptionState<T> = ValueParserResult<T> | undefined;
 
+/**
+ * Tells whether `token` is a bundle of short options that begins with
+ * `shortOption`, e.g., `-abc` for `-a`.  A token with a hyphen or an equals
+ * sign after the initial hyphen is not one: stripping a letter off `-v-` or
+ * `-v=1` would leave a `--` terminator or a value that nobody typed.
+ */
+function isShortOptionBundle(token: string, shortOption: string): boolean {
+  return token.startsWith(shortOption) && !/[-=]/.test(token.slice(2));
+}
+
 function hasParsedOptionValue<M extends Mode, T>(
   state: ValueParserResult<T | boolean> | undefined,
   valueParser: ValueParser<M, T> | undefined,
@@ -1201,7 +1211,7 @@ export function option<M extends Mode, T>(
           (name) => name.match(/^-[^-]$/),
         );
         for (const shortOption of shortOptions) {
-          if (!context.buffer[0].startsWith(shortOption)) continue;
+          if (!isShortOptionBundle(context.buffer[0], shortOption)) continue;
           if (hasParsedOptionValue(context.state, valueParser)) {
             return {
               success: false,
@@ -1756,7 +1766,7 @@ export function flag(
         (name) => name.match(/^-[^-]$/),
       );
       for (const shortOption of shortOptions) {
-        if (!context.buffer[0].startsWith(shortOption)) continue;
+        if (!isShortOptionBundle(context.buffer[0], shortOption)) continue;
         if (context.state?.success) {
           return {
             success: false,
@@ -2231,7 +2241,7 @@ export function negatableFlag(
 
       for (const shortOption of optionNames) {
         if (!shortOption.match(/^-[^-]$/)) continue;
-        if (!context.buffer[0].startsWith(shortOption)) continue;
+        if (!isShortOptionBundle(context.buffer[0], shortOption)) continue;
         return parseMatchedNegatableFlag(
           context,
           shortOption,
-- 
2.43.0


From b41a377ef1040c772c6597b47c664b361330320e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:57 +0000
Subject: [PATCH 02/39] fix: replay everything a branch consumed before or()
 switches away from it

A branch that had consumed tokens in several steps only had its last step
checked against the branch being switched to, so earlier tokens could be
dropped silently.
---
 packages/core/src/constructs.ts | 132 +++++++++++++++++++++++++++-----
 1 file changed, 111 insertions(+), 21 deletions(-)

diff --git a/packages/core/src/constructs.ts b/packages/core/src/constructs.ts
index 347eeba..dd8253a 100644
--- a/packages/core/src/constructs.ts
+++ b/packages/core/src/constructs.ts
@@ -1242,6 +1242,75 @@ function createExclusiveState(
   ) as ExclusiveState;
 }
 
+/**
+ * Adds the tokens of a continued branch to the ones it consumed before, so
+ * that a later branch switch is checked against everything this branch took
+ * and not only against its last step.
+ */
+function continueExclusiveResult<
+  T extends ParserResult<unknown> & { readonly success: true },
+>(
+  activeState: ExclusiveState,
+  index: number,
+  result: T,
+): T {
+  return activeState?.[0] === index && activeState[1].success
+    ? { ...result, consumed: [...activeState[1].consumed, ...result.consumed] }
+    : result;
+}
+
+/**
+ * Prepares the context for replaying previously consumed tokens on another
+ * branch.  If the tokens include a `--` terminator, options were still allowed
+ * in front of it.
+ */
+function withReplayBuffer<TState>(
+  context: ParserContext<TState>,
+  consumed: readonly string[],
+): ParserContext<TState> {
+  return {
+    ...context,
+    buffer: consumed,
+    optionsTerminated: context.optionsTerminated && !consumed.includes("--"),
+  };
+}
+
+function replayConsumedSync(
+  parser: Parser<"sync", unknown, unknown>,
+  context: ParserContext<unknown>,
+  consumed: readonly string[],
+): ParserResult<unknown> {
+  let current = withReplayBuffer(context, consumed);
+  const replayed: string[] = [];
+  for (;;) {
+    const result = parser.parse(current);
+    if (!result.success) return result;
+    replayed.push(...result.consumed);
+    if (result.consumed.length < 1 || result.next.buffer.length < 1) {
+      return { ...result, consumed: replayed };
+    }
+    current = result.next;
+  }
+}
+
+async function replayConsumedAsync(
+  parser: Parser<Mode, unknown, unknown>,
+  context: ParserContext<unknown>,
+  consumed: readonly string[],
+): Promise<ParserResult<unknown>> {
+  let current = withReplayBuffer(context, consumed);
+  const replayed: string[] = [];
+  for (;;) {
+    const result = await parser.parse(current);
+    if (!result.success) return result;
+    replayed.push(...result.consumed);
+    if (result.consumed.length < 1 || result.next.buffer.length < 1) {
+      return { ...result, consumed: replayed };
+    }
+    current = result.next;
+  }
+}
+
 /**
  * Creates a complete() method shared by or() and longestMatch().
  * @internal
@@ -3334,10 +3403,11 @@ export function or(
           // Different branch succeeded. Check if the new branch can also
           // consume the previously consumed input (shared options case).
           const previouslyConsumed = activeState[1].consumed;
-          const checkResult = parser.parse({
-            ...withChildContext(context, i, parser.initialState, parser),
-            buffer: previouslyConsumed,
-          });
+          const checkResult = replayConsumedSync(
+            parser,
+            withChildContext(context, i, parser.initialState, parser),
+            previouslyConsumed,
+          );
           // If the new branch can consume exactly the same input,
           // this is a shared option - allow branch switch.
           const canConsumeShared = checkResult.success &&
@@ -3418,7 +3488,12 @@ export function or(
             ...context,
             buffer: result.next.buffer,
             optionsTerminated: result.next.optionsTerminated,
-            state: createExclusiveState(context.state, i, parser, result),
+            state: createExclusiveState(
+              context.state,
+              i,
+              parser,
+              continueExclusiveResult(activeState, i, result),
+            ),
             ...(mergedExec != null
               ? {
                 exec: mergedExec,
@@ -3509,7 +3584,11 @@ export function or(
               context.state,
               provisionalConsuming.index,
               provisionalConsuming.parser,
-              provisionalConsuming.result,
+              continueExclusiveResult(
+                activeState,
+                provisionalConsuming.index,
+                provisionalConsuming.result,
+              ),
             ),
             ...(mergedExec != null
               ? {
@@ -3528,15 +3607,16 @@ export function or(
       // commit to it after replaying.
       if (activeState != null && activeState[1].success) {
         const previouslyConsumed = activeState[1].consumed;
-        const checkResult = provisionalConsuming.parser.parse({
-          ...withChildContext(
+        const checkResult = replayConsumedSync(
+          provisionalConsuming.parser,
+          withChildContext(
             context,
             provisionalConsuming.index,
             provisionalConsuming.parser.initialState,
             provisionalConsuming.parser,
           ),
-          buffer: previouslyConsumed,
-        });
+          previouslyConsumed,
+        );
         const canConsumeShared = checkResult.success &&
           checkResult.consumed.length === previouslyConsumed.length &&
           checkResult.consumed.every((c, idx) => c === previouslyConsumed[idx]);
@@ -3714,11 +3794,11 @@ export function or(
           // Different branch succeeded. Check if the new branch can also
           // consume the previously consumed input (shared options case).
           const previouslyConsumed = activeState[1].consumed;
-          const checkResultOrPromise = parser.parse({
-            ...withChildContext(context, i, parser.initialState, parser),
-            buffer: previouslyConsumed,
-          });
-          const checkResult = await checkResultOrPromise;
+          const checkResult = await replayConsumedAsync(
+            parser,
+            withChildContext(context, i, parser.initialState, parser),
+            previouslyConsumed,
+          );
           // If the new branch can consume exactly the same input,
           // this is a shared option - allow branch switch.
           const canConsumeShared = checkResult.success &&
@@ -3800,7 +3880,12 @@ export function or(
             ...context,
             buffer: result.next.buffer,
             optionsTerminated: result.next.optionsTerminated,
-            state: createExclusiveState(context.state, i, parser, result),
+            state: createExclusiveState(
+              context.state,
+              i,
+              parser,
+              continueExclusiveResult(activeState, i, result),
+            ),
             ...(mergedExec != null
               ? {
                 exec: mergedExec,
@@ -3880,7 +3965,11 @@ export function or(
               context.state,
               provisionalConsuming.index,
               provisionalConsuming.parser,
-              provisionalConsuming.result,
+              continueExclusiveResult(
+                activeState,
+                provisionalConsuming.index,
+                provisionalConsuming.result,
+              ),
             ),
             ...(mergedExec != null
               ? {
@@ -3899,15 +3988,16 @@ export function or(
       // narrowing here, so re-test inline.
       if (activeState != null && activeState[1].success) {
         const previouslyConsumed = activeState[1].consumed;
-        const checkResult = await provisionalConsuming.parser.parse({
-          ...withChildContext(
+        const checkResult = await replayConsumedAsync(
+          provisionalConsuming.parser,
+          withChildContext(
             context,
             provisionalConsuming.index,
             provisionalConsuming.parser.initialState,
             provisionalConsuming.parser,
           ),
-          buffer: previouslyConsumed,
-        });
+          previouslyConsumed,
+        );
         const canConsumeShared = checkResult.success &&
           checkResult.consumed.length === previouslyConsumed.length &&
           checkResult.consumed.every((c, idx) => c === previouslyConsumed[idx]);
-- 
2.43.0


From 453792ad5932957b3e47258c2e4d15bccc37c553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:47 +0000
Subject: [PATCH 03/39] fix: a filled argument no longer claims a -- that a
 merged sibling needs

Objects combined with merge() rejected a positional value after -- for a later
part once an earlier part's argument was filled.
---
 packages/core/src/primitives.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/packages/core/src/primitives.ts b/packages/core/src/primitives.ts
index fdbc552..e35b7aa 100644
--- a/packages/core/src/primitives.ts
+++ b/packages/core/src/primitives.ts
@@ -2515,9 +2515,11 @@ export function argument<M extends Mode, T>(
       }
 
       if (localState != null) {
+        // Nothing is claimed, not even a preceding `--`: a sibling parser may
+        // still take the input.
         return {
           success: false,
-          consumed: i,
+          consumed: 0,
           error: options.errors?.multiple
             ? (typeof options.errors.multiple === "function"
               ? options.errors.multiple(valueParser.metavar)
-- 
2.43.0


From e0f3543763f7d456e9dd1f26616be63352c010c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:56 +0000
Subject: [PATCH 04/39] fix: a dependency source wrapped in group() or
 nonEmpty() stays a source

Derived options were judged by their declared default instead of the source's
value when the source option was wrapped.
---
 packages/core/src/constructs.ts | 8 ++++++++
 packages/core/src/modifiers.ts  | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/packages/core/src/constructs.ts b/packages/core/src/constructs.ts
index dd8253a..828ae2b 100644
--- a/packages/core/src/constructs.ts
+++ b/packages/core/src/constructs.ts
@@ -12998,6 +12998,14 @@ export function group<M extends Mode, TValue, TState>(
       enumerable: false,
     });
   }
+  // A dependency source stays one inside a group.
+  if (parser.dependencyMetadata != null) {
+    Object.defineProperty(groupParser, "dependencyMetadata", {
+      value: parser.dependencyMetadata,
+      configurable: true,
+      enumerable: false,
+    });
+  }
   // Forward value normalization as non-enumerable.
   if (typeof parser.normalizeValue === "function") {
     Object.defineProperty(groupParser, "normalizeValue", {
diff --git a/packages/core/src/modifiers.ts b/packages/core/src/modifiers.ts
index d4190ef..c6aa9d3 100644
--- a/packages/core/src/modifiers.ts
+++ b/packages/core/src/modifiers.ts
@@ -3410,6 +3410,14 @@ export function nonEmpty<M extends Mode, T, TState>(
     configurable: true,
     enumerable: false,
   });
+  // A dependency source stays one inside nonEmpty().
+  if (parser.dependencyMetadata != null) {
+    Object.defineProperty(nonEmptyParser, "dependencyMetadata", {
+      value: parser.dependencyMetadata,
+      configurable: true,
+      enumerable: false,
+    });
+  }
   // Forward value normalization as non-enumerable.
   if (typeof parser.normalizeValue === "function") {
     Object.defineProperty(nonEmptyParser, "normalizeValue", {
-- 
2.43.0


From 9fe310be60ac8d34f807353edce2c4b01adec25e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:56 +0000
Subject: [PATCH 05/39] fix: longestMatch() no longer drops tokens another
 branch consumed before

A branch was chosen by the tokens of the current step only, so switching away
from the branch that took the earlier ones silently discarded them.  The
tokens are now replayed on the new branch, as or() does; a replayed terminator
(--) counts as taken over by any branch.
---
 packages/core/src/constructs.ts | 181 ++++++++++++++++++++++++++++++--
 1 file changed, 173 insertions(+), 8 deletions(-)

diff --git a/packages/core/src/constructs.ts b/packages/core/src/constructs.ts
index 828ae2b..ed42145 100644
--- a/packages/core/src/constructs.ts
+++ b/packages/core/src/constructs.ts
@@ -1275,6 +1275,25 @@ function withReplayBuffer<TState>(
   };
 }
 
+/**
+ * Whether only a `--` terminator is left to replay.  It ends the options of
+ * whichever branch continues after it and belongs to none of them.
+ */
+function endsWithTerminator(context: ParserContext<unknown>): boolean {
+  return !context.optionsTerminated && context.buffer.length === 1 &&
+    context.buffer[0] === "--";
+}
+
+function acceptTerminator(
+  context: ParserContext<unknown>,
+): ParserResult<unknown> {
+  return {
+    success: true,
+    next: { ...context, buffer: [], optionsTerminated: true },
+    consumed: ["--"],
+  };
+}
+
 function replayConsumedSync(
   parser: Parser<"sync", unknown, unknown>,
   context: ParserContext<unknown>,
@@ -1283,7 +1302,9 @@ function replayConsumedSync(
   let current = withReplayBuffer(context, consumed);
   const replayed: string[] = [];
   for (;;) {
-    const result = parser.parse(current);
+    const result = endsWithTerminator(current)
+      ? acceptTerminator(current)
+      : parser.parse(current);
     if (!result.success) return result;
     replayed.push(...result.consumed);
     if (result.consumed.length < 1 || result.next.buffer.length < 1) {
@@ -1301,7 +1322,9 @@ async function replayConsumedAsync(
   let current = withReplayBuffer(context, consumed);
   const replayed: string[] = [];
   for (;;) {
-    const result = await parser.parse(current);
+    const result = endsWithTerminator(current)
+      ? acceptTerminator(current)
+      : await parser.parse(current);
     if (!result.success) return result;
     replayed.push(...result.consumed);
     if (result.consumed.length < 1 || result.next.buffer.length < 1) {
@@ -4518,6 +4541,7 @@ function createLongestMatch(
       parser: Parser<"sync", unknown, unknown>;
       result: ParserResult<unknown>;
       consumed: number;
+      replayedConsumed: readonly string[] | undefined;
     } | null = null;
     let error = getInitialError(context);
     const activeState = normalizeExclusiveState(context.state);
@@ -4525,7 +4549,8 @@ function createLongestMatch(
     // Try all parsers and find the one with longest match
     for (let i = 0; i < syncParsers.length; i++) {
       const parser = syncParsers[i];
-      const result = parser.parse(
+      let replayedConsumed: readonly string[] | undefined;
+      let result = parser.parse(
         withChildContext(
           context,
           i,
@@ -4537,6 +4562,57 @@ function createLongestMatch(
         ),
       );
 
+      if (
+        result.success && result.consumed.length > 0 &&
+        activeState != null && activeState[0] !== i &&
+        activeState[1].success && activeState[1].consumed.length > 0
+      ) {
+        // Tokens another branch consumed before must not get lost: this
+        // branch is a candidate only if it can take them over as well.
+        const previouslyConsumed = activeState[1].consumed;
+        const replayed = replayConsumedSync(
+          parser,
+          withChildContext(context, i, parser.initialState, parser),
+          previouslyConsumed,
+        );
+        if (
+          !replayed.success ||
+          replayed.consumed.length !== previouslyConsumed.length ||
+          !replayed.consumed.every((c, idx) => c === previouslyConsumed[idx])
+        ) {
+          const consumed = context.buffer.length - result.next.buffer.length;
+          if (error.consumed < consumed) {
+            error = {
+              consumed,
+              error: message`${values(previouslyConsumed)} and ${
+                values(result.consumed)
+              } cannot be used together.`,
+            };
+          }
+          continue;
+        }
+        const replayExec = mergeChildExec(context.exec, replayed.next.exec);
+        result = parser.parse(
+          withChildContext(
+            {
+              ...context,
+              ...(replayExec != null
+                ? {
+                  exec: replayExec,
+                  dependencyRegistry: replayExec.dependencyRegistry,
+                }
+                : {}),
+            },
+            i,
+            replayed.next.state,
+            parser,
+          ),
+        );
+        if (result.success) {
+          replayedConsumed = previouslyConsumed;
+        }
+      }
+
       if (result.success) {
         const consumed = context.buffer.length - result.next.buffer.length;
         // Prefer non-provisional results over provisional ones at the
@@ -4549,7 +4625,13 @@ function createLongestMatch(
           (consumed === bestMatch.consumed &&
             bestIsProvisional && !result.provisional)
         ) {
-          bestMatch = { index: i, parser, result, consumed };
+          bestMatch = {
+            index: i,
+            parser,
+            result,
+            consumed,
+            replayedConsumed,
+          };
         }
       } else if (error.consumed < result.consumed) {
         error = result;
@@ -4571,7 +4653,19 @@ function createLongestMatch(
             context.state,
             bestMatch.index,
             bestMatch.parser,
-            bestMatch.result,
+            bestMatch.replayedConsumed == null
+              ? continueExclusiveResult(
+                activeState,
+                bestMatch.index,
+                bestMatch.result,
+              )
+              : {
+                ...bestMatch.result,
+                consumed: [
+                  ...bestMatch.replayedConsumed,
+                  ...bestMatch.result.consumed,
+                ],
+              },
           ),
           ...(mergedExec != null
             ? {
@@ -4596,6 +4690,7 @@ function createLongestMatch(
       parser: Parser<Mode, unknown, unknown>;
       result: ParserResult<unknown>;
       consumed: number;
+      replayedConsumed: readonly string[] | undefined;
     } | null = null;
     let error = getInitialError(context);
     const activeState = normalizeExclusiveState(context.state);
@@ -4603,6 +4698,7 @@ function createLongestMatch(
     // Try all parsers and find the one with longest match
     for (let i = 0; i < parsers.length; i++) {
       const parser = parsers[i];
+      let replayedConsumed: readonly string[] | undefined;
       const resultOrPromise = parser.parse(
         withChildContext(
           context,
@@ -4614,7 +4710,58 @@ function createLongestMatch(
           parser,
         ),
       );
-      const result = await resultOrPromise;
+      let result = await resultOrPromise;
+
+      if (
+        result.success && result.consumed.length > 0 &&
+        activeState != null && activeState[0] !== i &&
+        activeState[1].success && activeState[1].consumed.length > 0
+      ) {
+        // Tokens another branch consumed before must not get lost: this
+        // branch is a candidate only if it can take them over as well.
+        const previouslyConsumed = activeState[1].consumed;
+        const replayed = await replayConsumedAsync(
+          parser,
+          withChildContext(context, i, parser.initialState, parser),
+          previouslyConsumed,
+        );
+        if (
+          !replayed.success ||
+          replayed.consumed.length !== previouslyConsumed.length ||
+          !replayed.consumed.every((c, idx) => c === previouslyConsumed[idx])
+        ) {
+          const consumed = context.buffer.length - result.next.buffer.length;
+          if (error.consumed < consumed) {
+            error = {
+              consumed,
+              error: message`${values(previouslyConsumed)} and ${
+                values(result.consumed)
+              } cannot be used together.`,
+            };
+          }
+          continue;
+        }
+        const replayExec = mergeChildExec(context.exec, replayed.next.exec);
+        result = await parser.parse(
+          withChildContext(
+            {
+              ...context,
+              ...(replayExec != null
+                ? {
+                  exec: replayExec,
+                  dependencyRegistry: replayExec.dependencyRegistry,
+                }
+                : {}),
+            },
+            i,
+            replayed.next.state,
+            parser,
+          ),
+        );
+        if (result.success) {
+          replayedConsumed = previouslyConsumed;
+        }
+      }
 
       if (result.success) {
         const consumed = context.buffer.length - result.next.buffer.length;
@@ -4628,7 +4775,13 @@ function createLongestMatch(
           (consumed === bestMatch.consumed &&
             bestIsProvisional && !result.provisional)
         ) {
-          bestMatch = { index: i, parser, result, consumed };
+          bestMatch = {
+            index: i,
+            parser,
+            result,
+            consumed,
+            replayedConsumed,
+          };
         }
       } else if (error.consumed < result.consumed) {
         error = result;
@@ -4650,7 +4803,19 @@ function createLongestMatch(
             context.state,
             bestMatch.index,
             bestMatch.parser,
-            bestMatch.result,
+            bestMatch.replayedConsumed == null
+              ? continueExclusiveResult(
+                activeState,
+                bestMatch.index,
+                bestMatch.result,
+              )
+              : {
+                ...bestMatch.result,
+                consumed: [
+                  ...bestMatch.replayedConsumed,
+                  ...bestMatch.result.consumed,
+                ],
+              },
           ),
           ...(mergedExec != null
             ? {
-- 
2.43.0


From 7b03a3abf2bf970cafa0a4a1a09c13b081001f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:49 +0000
Subject: [PATCH 06/39] fix: or() tries later branches before it reports a
 conflict

---
 packages/core/src/constructs.ts | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/packages/core/src/constructs.ts b/packages/core/src/constructs.ts
index ed42145..0f1e019 100644
--- a/packages/core/src/constructs.ts
+++ b/packages/core/src/constructs.ts
@@ -3343,6 +3343,7 @@ export function or(
       result: ParserResult<unknown> & { success: true };
     } | null = null;
     let provisionalAmbiguous = false;
+    let conflict: (ParseResult & { success: false }) | null = null;
     for (const [parser, i] of orderedParsers) {
       const result = parser.parse(
         withChildContext(
@@ -3439,13 +3440,15 @@ export function or(
               c === previouslyConsumed[idx]
             );
           if (!canConsumeShared) {
-            return {
+            // A later branch may still be able to take everything.
+            conflict ??= {
               success: false,
               consumed: context.buffer.length - result.next.buffer.length,
               error: message`${values(activeState[1].consumed)} and ${
                 values(result.consumed)
               } cannot be used together.`,
             };
+            continue;
           }
           // Branch switch allowed - re-parse current input with state from
           // shared options to ensure dependency values are available.
@@ -3470,7 +3473,8 @@ export function or(
             ),
           );
           if (!replayedResult.success) {
-            return replayedResult;
+            conflict ??= replayedResult;
+            continue;
           }
           const mergedExec = mergeChildExec(
             replayExec,
@@ -3715,7 +3719,7 @@ export function or(
         }
       }
     }
-    return { ...error, success: false };
+    return conflict ?? { ...error, success: false };
   };
 
   // Async parse implementation
@@ -3744,6 +3748,7 @@ export function or(
       result: ParserResult<unknown> & { success: true };
     } | null = null;
     let provisionalAmbiguous = false;
+    let conflict: (ParseResult & { success: false }) | null = null;
     for (const [parser, i] of orderedParsers) {
       const resultOrPromise = parser.parse(
         withChildContext(
@@ -3830,13 +3835,15 @@ export function or(
               c === previouslyConsumed[idx]
             );
           if (!canConsumeShared) {
-            return {
+            // A later branch may still be able to take everything.
+            conflict ??= {
               success: false,
               consumed: context.buffer.length - result.next.buffer.length,
               error: message`${values(activeState[1].consumed)} and ${
                 values(result.consumed)
               } cannot be used together.`,
             };
+            continue;
           }
           // Branch switch allowed - re-parse current input with state from
           // shared options to ensure dependency values are available.
@@ -3862,7 +3869,8 @@ export function or(
           );
           const replayedResult = await replayedResultOrPromise;
           if (!replayedResult.success) {
-            return replayedResult;
+            conflict ??= replayedResult;
+            continue;
           }
           const mergedExec = mergeChildExec(
             replayExec,
@@ -4086,7 +4094,7 @@ export function or(
         }
       }
     }
-    return { ...error, success: false };
+    return conflict ?? { ...error, success: false };
   };
 
   const singleResult = {
@@ -13913,6 +13921,7 @@ export function conditional(
         } | undefined;
         let provisionalHit: typeof speculativeHit;
         let provisionalAmbiguous = false;
+    let conflict: (ParseResult & { success: false }) | null = null;
         let speculativeError:
           | (ParserResult<unknown> & {
             success: false;
-- 
2.43.0


From d7a014cab050b240f13404e6e2a17e9f20a0ccf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:44 +0000
Subject: [PATCH 07/39] fix: longestMatch() keeps the selected branch when
 another one takes no token

---
 packages/core/src/constructs.ts | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/packages/core/src/constructs.ts b/packages/core/src/constructs.ts
index 0f1e019..1749a69 100644
--- a/packages/core/src/constructs.ts
+++ b/packages/core/src/constructs.ts
@@ -4571,10 +4571,12 @@ function createLongestMatch(
       );
 
       if (
-        result.success && result.consumed.length > 0 &&
+        result.success &&
         activeState != null && activeState[0] !== i &&
         activeState[1].success && activeState[1].consumed.length > 0
       ) {
+        // Nothing to gain: this branch takes no token of its own.
+        if (result.consumed.length < 1) continue;
         // Tokens another branch consumed before must not get lost: this
         // branch is a candidate only if it can take them over as well.
         const previouslyConsumed = activeState[1].consumed;
@@ -4721,10 +4723,12 @@ function createLongestMatch(
       let result = await resultOrPromise;
 
       if (
-        result.success && result.consumed.length > 0 &&
+        result.success &&
         activeState != null && activeState[0] !== i &&
         activeState[1].success && activeState[1].consumed.length > 0
       ) {
+        // Nothing to gain: this branch takes no token of its own.
+        if (result.consumed.length < 1) continue;
         // Tokens another branch consumed before must not get lost: this
         // branch is a candidate only if it can take them over as well.
         const previouslyConsumed = activeState[1].consumed;
-- 
2.43.0


From 0ec1a88ee24caa2b4e7052448337a5ab12e1d583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:16 +0000
Subject: [PATCH 08/39] fix: replay tokens under the option state they were
 consumed in, and keep the furthest error

---
 packages/core/src/constructs.ts | 35 +++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/packages/core/src/constructs.ts b/packages/core/src/constructs.ts
index 1749a69..f4d95d7 100644
--- a/packages/core/src/constructs.ts
+++ b/packages/core/src/constructs.ts
@@ -1266,12 +1266,13 @@ function continueExclusiveResult<
  */
 function withReplayBuffer<TState>(
   context: ParserContext<TState>,
-  consumed: readonly string[],
+  previous: ParserResult<unknown> & { readonly success: true },
 ): ParserContext<TState> {
   return {
     ...context,
-    buffer: consumed,
-    optionsTerminated: context.optionsTerminated && !consumed.includes("--"),
+    buffer: previous.consumed,
+    optionsTerminated: previous.next.optionsTerminated &&
+      !previous.consumed.includes("--"),
   };
 }
 
@@ -1297,9 +1298,9 @@ function acceptTerminator(
 function replayConsumedSync(
   parser: Parser<"sync", unknown, unknown>,
   context: ParserContext<unknown>,
-  consumed: readonly string[],
+  previous: ParserResult<unknown> & { readonly success: true },
 ): ParserResult<unknown> {
-  let current = withReplayBuffer(context, consumed);
+  let current = withReplayBuffer(context, previous);
   const replayed: string[] = [];
   for (;;) {
     const result = endsWithTerminator(current)
@@ -1317,9 +1318,9 @@ function replayConsumedSync(
 async function replayConsumedAsync(
   parser: Parser<Mode, unknown, unknown>,
   context: ParserContext<unknown>,
-  consumed: readonly string[],
+  previous: ParserResult<unknown> & { readonly success: true },
 ): Promise<ParserResult<unknown>> {
-  let current = withReplayBuffer(context, consumed);
+  let current = withReplayBuffer(context, previous);
   const replayed: string[] = [];
   for (;;) {
     const result = endsWithTerminator(current)
@@ -3430,7 +3431,7 @@ export function or(
           const checkResult = replayConsumedSync(
             parser,
             withChildContext(context, i, parser.initialState, parser),
-            previouslyConsumed,
+            activeState[1],
           );
           // If the new branch can consume exactly the same input,
           // this is a shared option - allow branch switch.
@@ -3642,7 +3643,7 @@ export function or(
             provisionalConsuming.parser.initialState,
             provisionalConsuming.parser,
           ),
-          previouslyConsumed,
+          activeState[1],
         );
         const canConsumeShared = checkResult.success &&
           checkResult.consumed.length === previouslyConsumed.length &&
@@ -3719,7 +3720,9 @@ export function or(
         }
       }
     }
-    return conflict ?? { ...error, success: false };
+    return conflict != null && conflict.consumed >= error.consumed
+      ? conflict
+      : { ...error, success: false };
   };
 
   // Async parse implementation
@@ -3825,7 +3828,7 @@ export function or(
           const checkResult = await replayConsumedAsync(
             parser,
             withChildContext(context, i, parser.initialState, parser),
-            previouslyConsumed,
+            activeState[1],
           );
           // If the new branch can consume exactly the same input,
           // this is a shared option - allow branch switch.
@@ -4027,7 +4030,7 @@ export function or(
             provisionalConsuming.parser.initialState,
             provisionalConsuming.parser,
           ),
-          previouslyConsumed,
+          activeState[1],
         );
         const canConsumeShared = checkResult.success &&
           checkResult.consumed.length === previouslyConsumed.length &&
@@ -4094,7 +4097,9 @@ export function or(
         }
       }
     }
-    return conflict ?? { ...error, success: false };
+    return conflict != null && conflict.consumed >= error.consumed
+      ? conflict
+      : { ...error, success: false };
   };
 
   const singleResult = {
@@ -4583,7 +4588,7 @@ function createLongestMatch(
         const replayed = replayConsumedSync(
           parser,
           withChildContext(context, i, parser.initialState, parser),
-          previouslyConsumed,
+          activeState[1],
         );
         if (
           !replayed.success ||
@@ -4735,7 +4740,7 @@ function createLongestMatch(
         const replayed = await replayConsumedAsync(
           parser,
           withChildContext(context, i, parser.initialState, parser),
-          previouslyConsumed,
+          activeState[1],
         );
         if (
           !replayed.success ||
-- 
2.43.0


From d03ceb00609787c77e11e00e4e7c106819338e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:46 +0000
Subject: [PATCH 09/39] fix: or() no longer drops a branch that consumed tokens
 for an empty one

---
 packages/core/src/constructs.ts | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/packages/core/src/constructs.ts b/packages/core/src/constructs.ts
index f4d95d7..3b242f6 100644
--- a/packages/core/src/constructs.ts
+++ b/packages/core/src/constructs.ts
@@ -3550,9 +3550,13 @@ export function or(
     // accepting a zero-consumed fallback would leave them unconsumed,
     // causing the top-level parse loop to stall and emit a generic
     // "Unexpected option" error instead of the construct's own error.
+    // A branch that already consumed tokens is never displaced.
     if (
       zeroConsumedBranch !== null && zeroConsumedCount === 1 &&
-      error.consumed === 0 && context.buffer.length === 0
+      error.consumed === 0 && context.buffer.length === 0 &&
+      !(activeState != null && activeState[1].success &&
+        activeState[1].consumed.length > 0 &&
+        activeState[0] !== zeroConsumedBranch.index)
     ) {
       // Persist the branch state so wrappers like multiple() can
       // see the state change.  Only propagate provisional from the
@@ -3946,7 +3950,10 @@ export function or(
     // Accept non-consuming branch when unambiguous (see sync counterpart).
     if (
       zeroConsumedBranch !== null && zeroConsumedCount === 1 &&
-      error.consumed === 0 && context.buffer.length === 0
+      error.consumed === 0 && context.buffer.length === 0 &&
+      !(activeState != null && activeState[1].success &&
+        activeState[1].consumed.length > 0 &&
+        activeState[0] !== zeroConsumedBranch.index)
     ) {
       // Persist branch state (see sync counterpart for rationale).
       const mergedExec = mergeChildExec(
-- 
2.43.0


From 3a3c2a79d57024a557ca77a414bf74008a0ebbbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:19 +0000
Subject: [PATCH 10/39] fix: fileSize() formats a size with a unit only when it
 parses back to the same size

---
 packages/core/src/valueparser.ts | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/packages/core/src/valueparser.ts b/packages/core/src/valueparser.ts
index ad4f78a..a4af0dd 100644
--- a/packages/core/src/valueparser.ts
+++ b/packages/core/src/valueparser.ts
@@ -2878,8 +2878,9 @@ const FILE_SIZE_REGEX = /^([+-]?(?:\d+\.?\d*|\d*\.\d+))\s*([a-zA-Z]*)$/;
  * Falls back to `"${bytes}B"`.
  *
  * A unit is chosen only when the formatted value round-trips exactly: the
- * rounded quotient must lie in [1, 1000) and `rounded * size === bytes` must
- * hold in float64 arithmetic.  This guarantees `parse(format(x)) === x`.
+ * rounded quotient must lie in [1, 1000) and `rounded` times `size` must be
+ * exactly `bytes` in decimal arithmetic.  This guarantees
+ * `parse(format(x)) === x`.
  */
 function formatWithUnits(
   bytes: number,
@@ -2892,7 +2893,10 @@ function formatWithUnits(
     const v = bytes / size;
     const rounded = Math.round(v * 100) / 100;
     const absRounded = Math.abs(rounded);
-    if (absRounded >= 1 && absRounded < 1000 && rounded * size === bytes) {
+    if (
+      absRounded >= 1 && absRounded < 1000 &&
+      parseExactBytes(`${rounded}`, size) === bytes
+    ) {
       return `${rounded}${unit}`;
     }
   }
-- 
2.43.0


From 89335d680cadfc4b3690d6fbbe514bc03e4ee80c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:07 +0000
Subject: [PATCH 11/39] fix: email() takes the domain after the last @ when
 checking allowedDomains

A quoted local part may contain an @, so the domain starts after the last
one; the restriction check looked at the first.
---
 packages/core/src/valueparser.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/core/src/valueparser.ts b/packages/core/src/valueparser.ts
index a4af0dd..b533a91 100644
--- a/packages/core/src/valueparser.ts
+++ b/packages/core/src/valueparser.ts
@@ -5943,7 +5943,7 @@ export function email(
 
           // Check domain restriction
           if (allowedDomains != null) {
-            const atIndex = validated.indexOf("@");
+            const atIndex = validated.lastIndexOf("@");
             const domain = validated.substring(atIndex + 1).toLowerCase();
             const isAllowed = allowedDomains.some((allowed) =>
               domain === allowed.toLowerCase()
@@ -5985,7 +5985,7 @@ export function email(
 
         // Check domain restriction
         if (allowedDomains != null) {
-          const atIndex = validated.indexOf("@");
+          const atIndex = validated.lastIndexOf("@");
           const domain = validated.substring(atIndex + 1).toLowerCase();
           const isAllowed = allowedDomains.some((allowed) =>
             domain === allowed.toLowerCase()
-- 
2.43.0


From aa083279a28c637b078ff3865b5eea9128483e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:35 +0000
Subject: [PATCH 12/39] fix: timeZone() no longer accepts a whole ISO date-time
 with a bracketed zone

---
 packages/temporal/src/index.ts | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/packages/temporal/src/index.ts b/packages/temporal/src/index.ts
index 32561a0..7b50c59 100644
--- a/packages/temporal/src/index.ts
+++ b/packages/temporal/src/index.ts
@@ -820,6 +820,10 @@ const singleSegmentTimeZoneLookup: ReadonlyMap<string, SingleSegmentTimeZone> =
     ]),
   );
 
+/** An IANA time zone name with at least two segments. */
+const TIME_ZONE_NAME_RE =
+  /^[A-Za-z._][A-Za-z0-9._+-]*(?:\/[A-Za-z._][A-Za-z0-9._+-]*)+$/;
+
 /**
  * Creates a ValueParser for parsing IANA Time Zone Database identifiers.
  *
@@ -864,6 +868,10 @@ export function timeZone(
           return { success: true, value: canonical };
         }
 
+        // Temporal also takes the zone out of a whole ISO 8601 date-time
+        // string, so make sure that the input is an identifier first.
+        if (!TIME_ZONE_NAME_RE.test(input)) throw new RangeError();
+
         // Validate by creating a ZonedDateTime with this timezone
         // This will throw if the timezone is invalid
         Temporal.ZonedDateTime.from({
-- 
2.43.0


From b601d63e3a457ea4da8489ce4aae420c0e1418cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:35 +0000
Subject: [PATCH 13/39] fix: or() and longestMatch() point leftover options at
 the selected branch and hint every option of a branch

---
 packages/core/src/constructs.ts | 94 ++++++++++++++++++++++++++++++---
 1 file changed, 88 insertions(+), 6 deletions(-)

diff --git a/packages/core/src/constructs.ts b/packages/core/src/constructs.ts
index 3b242f6..3982a16 100644
--- a/packages/core/src/constructs.ts
+++ b/packages/core/src/constructs.ts
@@ -647,6 +647,7 @@ import {
   extractOptionNames,
   type HiddenVisibility,
   isDocHidden,
+  isSuggestionHidden,
   mergeHidden,
   type Usage,
   type UsageTerm,
@@ -654,6 +655,26 @@ import {
 import { collectLeadingCandidates } from "./usage-internals.ts";
 import { validateLabel } from "./validate.ts";
 
+/**
+ * Collects every visible option a branch takes before it enters a command.
+ * Options are accepted in any order, so those after a required one count too,
+ * except in a sequence.
+ */
+function collectBranchOptionNames(terms: Usage, names: Set<string>): void {
+  for (const term of terms) {
+    if (term.type === "command") {
+      return;
+    } else if (term.type === "option") {
+      if (isSuggestionHidden(term.hidden)) continue;
+      for (const name of term.names) names.add(name);
+    } else if (term.type === "exclusive") {
+      for (const branch of term.terms) collectBranchOptionNames(branch, names);
+    } else if (term.type === "optional" || term.type === "multiple") {
+      collectBranchOptionNames(term.terms, names);
+    }
+  }
+}
+
 function createUnexpectedInputErrorWithScopedSuggestions(
   baseError: Message,
   invalidInput: string,
@@ -665,6 +686,7 @@ function createUnexpectedInputErrorWithScopedSuggestions(
 
   for (const parser of parsers) {
     collectLeadingCandidates(parser.usage, options, commands);
+    collectBranchOptionNames(parser.usage, options);
   }
 
   const candidates = new Set<string>([...options, ...commands]);
@@ -1203,6 +1225,34 @@ function normalizeExclusiveState(state: unknown): ExclusiveState {
   return state as ExclusiveState;
 }
 
+/**
+ * The index of the branch selected by tokens it consumed, if any.
+ */
+function getSelectedBranch(state: ExclusiveState): number | undefined {
+  return state != null && state[1].success && state[1].consumed.length > 0
+    ? state[0]
+    : undefined;
+}
+
+/**
+ * Whether a selected branch's own error describes a leftover token better than
+ * one about all the branches, because the token can be a mistyped name of an
+ * option or a subcommand of that branch.
+ */
+function canExplainLeftover(
+  parser: Parser<Mode, unknown, unknown>,
+  token: string | undefined,
+): boolean {
+  if (token == null) return false;
+  if (token.startsWith("-")) return true;
+  const leading = new Set<string>();
+  collectLeadingCandidates(parser.usage, new Set(), leading);
+  for (const name of extractCommandNames(parser.usage)) {
+    if (!leading.has(name)) return true;
+  }
+  return false;
+}
+
 function annotateExclusiveParserResult(
   parentState: unknown,
   parser: Parser<Mode, unknown, unknown>,
@@ -3305,7 +3355,10 @@ export function or(
         return createUnexpectedInputErrorWithScopedSuggestions(
           defaultMsg,
           token,
-          parsers,
+          // Once a branch is selected, the other names are not available.
+          getSelectedBranch(normalizeExclusiveState(context.state)) == null
+            ? parsers
+            : [],
           options?.errors?.suggestions,
         );
       })(),
@@ -3541,7 +3594,14 @@ export function or(
           zeroConsumedBranch = { index: i, parser, result };
         }
         zeroConsumedCount++;
-      } else if (!result.success && error.consumed < result.consumed) {
+      } else if (
+        !result.success &&
+        (error.consumed < result.consumed ||
+          (error.consumed === result.consumed &&
+            options?.errors?.unexpectedInput == null &&
+            getSelectedBranch(activeState) === i &&
+            canExplainLeftover(parser, context.buffer[0])))
+      ) {
         error = result;
       }
     }
@@ -3943,7 +4003,14 @@ export function or(
           zeroConsumedBranch = { index: i, parser, result };
         }
         zeroConsumedCount++;
-      } else if (!result.success && error.consumed < result.consumed) {
+      } else if (
+        !result.success &&
+        (error.consumed < result.consumed ||
+          (error.consumed === result.consumed &&
+            options?.errors?.unexpectedInput == null &&
+            getSelectedBranch(activeState) === i &&
+            canExplainLeftover(parser, context.buffer[0])))
+      ) {
         error = result;
       }
     }
@@ -4546,7 +4613,10 @@ function createLongestMatch(
         return createUnexpectedInputErrorWithScopedSuggestions(
           defaultMsg,
           token,
-          parsers,
+          // Once a branch is selected, the other names are not available.
+          getSelectedBranch(normalizeExclusiveState(context.state)) == null
+            ? parsers
+            : [],
           options?.errors?.suggestions,
         );
       })(),
@@ -4655,7 +4725,13 @@ function createLongestMatch(
             replayedConsumed,
           };
         }
-      } else if (error.consumed < result.consumed) {
+      } else if (
+        error.consumed < result.consumed ||
+        (error.consumed === result.consumed &&
+          options?.errors?.unexpectedInput == null &&
+          getSelectedBranch(activeState) === i &&
+          canExplainLeftover(parser, context.buffer[0]))
+      ) {
         error = result;
       }
     }
@@ -4807,7 +4883,13 @@ function createLongestMatch(
             replayedConsumed,
           };
         }
-      } else if (error.consumed < result.consumed) {
+      } else if (
+        error.consumed < result.consumed ||
+        (error.consumed === result.consumed &&
+          options?.errors?.unexpectedInput == null &&
+          getSelectedBranch(activeState) === i &&
+          canExplainLeftover(parser, context.buffer[0]))
+      ) {
         error = result;
       }
     }
-- 
2.43.0


From 7dafc3deada7907f27a5b099f5ca5d0e4f076e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:37 +0000
Subject: [PATCH 14/39] fix: zod() and valibot() no longer suggest choices that
 a check on the schema rejects

---
 packages/valibot/src/index.ts | 17 ++++++++++++++++-
 packages/zod/src/index.ts     | 34 ++++++++++++++++++++++------------
 2 files changed, 38 insertions(+), 13 deletions(-)

diff --git a/packages/valibot/src/index.ts b/packages/valibot/src/index.ts
index cb100b4..0dc2b22 100644
--- a/packages/valibot/src/index.ts
+++ b/packages/valibot/src/index.ts
@@ -480,6 +480,21 @@ function inferMetavar(
   return "VALUE";
 }
 
+/**
+ * Whether a schema's pipe has actions that may reject or change values its
+ * type accepts, so that its type alone does not tell which choices are valid.
+ */
+function isPipedBeyondBranding(schema: ValibotSchemaInternal): boolean {
+  if (!Array.isArray(schema.pipe)) return false;
+  const [first, ...actions] = schema.pipe;
+  return isPipedBeyondBranding(first as ValibotSchemaInternal) ||
+    actions.some((action) => {
+      const { kind, type } = action as { kind?: string; type?: string };
+      return kind !== "metadata" && type !== "readonly" && type !== "brand" &&
+        type !== "flavor";
+    });
+}
+
 /**
  * Extracts valid choices from a Valibot schema that represents a fixed set of
  * values (picklist, literal, or union of literals).
@@ -493,7 +508,7 @@ function inferChoices(
 ): readonly string[] | undefined {
   const internalSchema = schema as ValibotSchemaInternal;
   const schemaType = internalSchema.type;
-  if (!schemaType) return undefined;
+  if (!schemaType || isPipedBeyondBranding(internalSchema)) return undefined;
 
   // v.picklist(["a", "b"]) → .options is primitive array.
   // Only string picklists are exposed; numeric values would fail
diff --git a/packages/zod/src/index.ts b/packages/zod/src/index.ts
index 937396f..123e332 100644
--- a/packages/zod/src/index.ts
+++ b/packages/zod/src/index.ts
@@ -133,6 +133,16 @@ interface BooleanSchemaInfo {
   readonly isCoerced: boolean;
 }
 
+/**
+ * Whether a schema carries checks of its own that may reject or change values
+ * its type accepts.  Zod v4 inlines `.refine()`, `.superRefine()`, `.check()`,
+ * and `.overwrite()` into the schema they are called on, while Zod v3 wraps it
+ * in a `ZodEffects`.  Choices are only exposed when there are none.
+ */
+function hasNarrowingChecks(def: ZodDefinitionInternal): boolean {
+  return Array.isArray(def.checks) && def.checks.length > 0;
+}
+
 /**
  * Analyzes whether the given Zod schema represents a boolean type,
  * unwrapping all known Zod wrappers.  Also determines whether it is
@@ -168,17 +178,9 @@ function analyzeBooleanInner(
     // Zod v4 inlines refinements as checks on the schema itself.
     // When custom checks are present, the accepted domain may be
     // narrowed, so suppress choices.
-    const hasCustomChecks = Array.isArray(def.checks) &&
-      def.checks.some((c) =>
-        c.kind === "custom" ||
-        (c as { type?: string }).type === "custom" ||
-        // Zod v4 superRefine/check stores type under _zod.def.check
-        (c as { _zod?: { def?: { check?: string } } })
-            ._zod?.def?.check === "custom"
-      );
     return {
       isBoolean: true,
-      exposeChoices: canExposeChoices && !hasCustomChecks,
+      exposeChoices: canExposeChoices && !hasNarrowingChecks(def),
       isCoerced: def.coerce === true,
     };
   }
@@ -193,14 +195,22 @@ function analyzeBooleanInner(
   ) {
     const innerType = def.innerType;
     if (innerType != null) {
-      return analyzeBooleanInner(innerType, canExposeChoices, visited);
+      return analyzeBooleanInner(
+        innerType,
+        canExposeChoices && !hasNarrowingChecks(def),
+        visited,
+      );
     }
   }
 
   // Lazy wrapper—resolve and unwrap the inner schema
   if (typeName === "ZodLazy" || typeName === "lazy") {
     if (typeof def.getter === "function") {
-      return analyzeBooleanInner(def.getter(), canExposeChoices, visited);
+      return analyzeBooleanInner(
+        def.getter(),
+        canExposeChoices && !hasNarrowingChecks(def),
+        visited,
+      );
     }
   }
 
@@ -449,7 +459,7 @@ function inferChoices(
   schema: z.Schema<unknown>,
 ): readonly string[] | undefined {
   const def = (schema as ZodSchemaInternal)._def;
-  if (!def) return undefined;
+  if (!def || hasNarrowingChecks(def)) return undefined;
 
   const typeName = def.typeName ?? def.type;
 
-- 
2.43.0


From 07248a81b59231de5f454befba5a87fbef63dc18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:40 +0000
Subject: [PATCH 15/39] fix: path() with allowCreate requires the parent to be
 a directory

---
 packages/run/src/valueparser.ts | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/packages/run/src/valueparser.ts b/packages/run/src/valueparser.ts
index 600a5ec..16919a5 100644
--- a/packages/run/src/valueparser.ts
+++ b/packages/run/src/valueparser.ts
@@ -181,6 +181,13 @@ export type PathOptions =
   | PathOptionsMustNotExist
   | PathOptionsNoExistenceCheck;
 
+/**
+ * Checks whether a path exists and is a directory.
+ */
+function isExistingDirectory(path: string): boolean {
+  return existsSync(path) && statSync(path).isDirectory();
+}
+
 /**
  * Creates a ValueParser for file system paths with validation options.
  *
@@ -354,7 +361,7 @@ export function path(options: PathOptions = {}): ValueParser<"sync", string> {
         // When mustNotExist, check parent directory if allowCreate is set
         if (allowCreate) {
           const parentDir = dirname(input);
-          if (!existsSync(parentDir)) {
+          if (!isExistingDirectory(parentDir)) {
             return {
               success: false,
               error: options.errors?.parentNotFound
@@ -411,7 +418,7 @@ export function path(options: PathOptions = {}): ValueParser<"sync", string> {
       // Create validation (parent directory must exist)
       if (allowCreate && !mustExist) {
         const parentDir = dirname(input);
-        if (!existsSync(parentDir)) {
+        if (!isExistingDirectory(parentDir)) {
           return {
             success: false,
             error: options.errors?.parentNotFound
-- 
2.43.0


From ff23a7ee6ebebf553a0ecb49af862cfd95af4ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:24 +0000
Subject: [PATCH 16/39] fix: gitCommit() and gitRef() accept only ids of
 existing commits and resolve to the commit

---
 packages/git/src/index.ts | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/packages/git/src/index.ts b/packages/git/src/index.ts
index df2e0b5..611dcb3 100644
--- a/packages/git/src/index.ts
+++ b/packages/git/src/index.ts
@@ -253,6 +253,20 @@ function listFailureMessage(
   return fallback;
 }
 
+/**
+ * Resolves a full or abbreviated commit SHA to the full OID of an existing
+ * commit.
+ */
+async function resolveCommit(dir: string, sha: string): Promise<string> {
+  const object = await git.expandOid({
+    fs: gitFs,
+    dir,
+    oid: sha.toLowerCase(),
+  });
+  const { oid } = await git.readCommit({ fs: gitFs, dir, oid: object });
+  return oid;
+}
+
 /** Default depth for commit suggestions. */
 const DEFAULT_SUGGESTION_DEPTH = 15;
 
@@ -717,8 +731,7 @@ export function gitCommit(
       }
 
       try {
-        const oid = await git.expandOid({ fs: gitFs, dir, oid: input });
-        return { success: true, value: oid };
+        return { success: true, value: await resolveCommit(dir, input) };
       } catch (e) {
         if (
           hasErrorCode(e, "AmbiguousShortOidError") ||
@@ -790,20 +803,16 @@ export function gitRef(
     options,
     metavar,
     async (dir, input, errors) => {
-      let resolved: string | undefined;
       try {
-        resolved = await git.resolveRef({ fs: gitFs, dir, ref: input });
+        const ref = await git.resolveRef({ fs: gitFs, dir, ref: input });
+        const { oid } = await git.readCommit({ fs: gitFs, dir, oid: ref });
+        return { success: true, value: oid };
       } catch {
         // Not a branch or tag, will try as a commit SHA.
       }
 
-      if (resolved) {
-        return { success: true, value: resolved };
-      }
-
       try {
-        const oid = await git.expandOid({ fs: gitFs, dir, oid: input });
-        return { success: true, value: oid };
+        return { success: true, value: await resolveCommit(dir, input) };
       } catch (e) {
         if (
           hasErrorCode(e, "AmbiguousShortOidError") ||
-- 
2.43.0


From 800343a06f919a9ad9dfcc86230b5bf94d3d13d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:24 +0000
Subject: [PATCH 17/39] fix: commit suggestions of the git parsers stay
 unambiguous in the repository, and an unborn HEAD no longer hides branches
 and tags

---
 packages/git/src/index.ts | 45 +++++++++++++++++++++++++++++++++------
 1 file changed, 38 insertions(+), 7 deletions(-)

diff --git a/packages/git/src/index.ts b/packages/git/src/index.ts
index 611dcb3..01ad3af 100644
--- a/packages/git/src/index.ts
+++ b/packages/git/src/index.ts
@@ -270,6 +270,36 @@ async function resolveCommit(dir: string, sha: string): Promise<string> {
 /** Default depth for commit suggestions. */
 const DEFAULT_SUGGESTION_DEPTH = 15;
 
+/**
+ * Abbreviates OIDs so that each stays unique among the given ones and among
+ * all objects of the repository, and is therefore accepted when parsed.
+ */
+async function abbreviateOids(
+  dir: string,
+  oids: readonly string[],
+  minLength: number,
+): Promise<Map<string, string>> {
+  const result = uniqueShortOids(oids, minLength);
+  const cache = {};
+  for (const [oid, short] of result) {
+    for (let length = short.length; length <= oid.length; length++) {
+      result.set(oid, oid.slice(0, length));
+      try {
+        await git.expandOid({
+          fs: gitFs,
+          dir,
+          oid: oid.slice(0, length),
+          cache,
+        });
+        break;
+      } catch (error) {
+        if (!hasErrorCode(error, "AmbiguousError")) throw error;
+      }
+    }
+  }
+  return result;
+}
+
 /**
  * Computes the shortest unique short OID for each given full OID within the
  * provided set, starting from a minimum length.  When two or more OIDs share
@@ -759,10 +789,10 @@ export function gitCommit(
       try {
         const commits = await git.log({ fs: gitFs, dir, depth });
         const matching = commits.filter((c) => c.oid.startsWith(prefix));
-        const minLen = Math.max(7, prefix.length);
-        const shortOids = uniqueShortOids(
+        const shortOids = await abbreviateOids(
+          dir,
           matching.map((c) => c.oid),
-          minLen,
+          Math.max(7, prefix.length),
         );
         for (const commit of matching) {
           const shortOid = shortOids.get(commit.oid)!;
@@ -841,7 +871,8 @@ export function gitRef(
         const [branches, tags, commits] = await Promise.all([
           git.listBranches({ fs: gitFs, dir }),
           git.listTags({ fs: gitFs, dir }),
-          git.log({ fs: gitFs, dir, depth }),
+          // HEAD may not point to a commit yet.
+          git.log({ fs: gitFs, dir, depth }).catch(() => []),
         ]);
 
         const seen = new Set<string>();
@@ -861,10 +892,10 @@ export function gitRef(
         }
 
         const matching = commits.filter((c) => c.oid.startsWith(prefix));
-        const minLen = Math.max(7, prefix.length);
-        const shortOids = uniqueShortOids(
+        const shortOids = await abbreviateOids(
+          dir,
           matching.map((c) => c.oid),
-          minLen,
+          Math.max(7, prefix.length),
         );
         for (const commit of matching) {
           const shortOid = shortOids.get(commit.oid)!;
-- 
2.43.0


From e94a4997d95a5c224b1e4aa3af8e2a8ab35f4e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:53 +0000
Subject: [PATCH 18/39] fix: keep empty strings in valueSet() messages

---
 packages/core/src/message.ts | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/packages/core/src/message.ts b/packages/core/src/message.ts
index 5f5b12d..a3f8112 100644
--- a/packages/core/src/message.ts
+++ b/packages/core/src/message.ts
@@ -505,12 +505,16 @@ export function valueSet(
     },
   );
 
-  const parts = formatter.formatToParts(values as string[]);
+  // Intl.ListFormat drops empty elements, so an empty string needs a stand-in.
+  const parts = formatter.formatToParts(
+    values.map((value) => value === "" ? '""' : value),
+  );
   const result: MessageTerm[] = [];
+  let index = 0;
 
   for (const part of parts) {
     if (part.type === "element") {
-      result.push({ type: "value", value: part.value });
+      result.push({ type: "value", value: values[index++] });
     } else {
       // part.type === "literal"
       result.push({ type: "text", text: part.value });
-- 
2.43.0


From 0014a2ed367a196dc932e65c6b3fd1d5f1005f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:53 +0000
Subject: [PATCH 19/39] fix: keep a full paragraph break after a line break
 followed by text

---
 packages/core/src/message.ts | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/packages/core/src/message.ts b/packages/core/src/message.ts
index a3f8112..9031420 100644
--- a/packages/core/src/message.ts
+++ b/packages/core/src/message.ts
@@ -631,8 +631,10 @@ export function formatMessage(
               // Yield paragraph break with -1 as special marker.
               // When preceded by lineBreak() (isAfterLineBreak && first break),
               // that term already emitted one \n, so emit only one more to total
-              // two (\n\n).  Otherwise emit \n\n directly.
-              const breakText = isAfterLineBreak && paragraphIndex === 1
+              // two (\n\n).  Otherwise, including when there is text in between,
+              // emit \n\n directly.
+              const breakText = isAfterLineBreak && paragraphIndex === 1 &&
+                  paragraphs[0].trim() === ""
                 ? "\n"
                 : "\n\n";
               yield { text: breakText, width: -1 };
-- 
2.43.0


From c3c3b525527e78cfc6adbf0a7294fa42ee032b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:53 +0000
Subject: [PATCH 20/39] fix: reset the colour of a values term that has a
 single value

---
 packages/core/src/message.ts | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/packages/core/src/message.ts b/packages/core/src/message.ts
index 9031420..abcb980 100644
--- a/packages/core/src/message.ts
+++ b/packages/core/src/message.ts
@@ -712,11 +712,8 @@ export function formatMessage(
             : term.values[i];
           yield {
             text: useColors
-              ? i <= 0
-                ? `\x1b[32m${value}`
-                : i + 1 >= term.values.length
-                ? `${value}${resetSequence}`
-                : value
+              ? (i === 0 ? "\x1b[32m" : "") + value +
+                (i === term.values.length - 1 ? resetSequence : "")
               : value,
             width: getDisplayWidth(value),
           };
-- 
2.43.0


From 10dfab59443336af137dbc9081cb914595f0667b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:24 +0000
Subject: [PATCH 21/39] fix: the bash completion script ignores blank lines

---
 packages/core/src/completion.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/core/src/completion.ts b/packages/core/src/completion.ts
index 59ae1af..5f3a52a 100644
--- a/packages/core/src/completion.ts
+++ b/packages/core/src/completion.ts
@@ -317,7 +317,7 @@ function _${programName} () {
         done
         COMPREPLY=("\${filtered[@]}")
       fi
-    else
+    elif [[ -n "$line" ]]; then
       # Regular literal completion
       COMPREPLY+=("$line")
     fi
-- 
2.43.0


From 0f63f8731ac69b5bf5b2a765f369db560c8992dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:24 +0000
Subject: [PATCH 22/39] fix: the zsh completion script escapes colons and
 backslashes for _describe

---
 packages/core/src/completion.ts | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/packages/core/src/completion.ts b/packages/core/src/completion.ts
index 5f3a52a..dea9b9e 100644
--- a/packages/core/src/completion.ts
+++ b/packages/core/src/completion.ts
@@ -486,10 +486,14 @@ function _${programName.replace(/[^a-zA-Z0-9]/g, "_")} () {
     local -a matches
     local -i i
     for (( i=1; i <= \${#completions[@]}; i++ )); do
+      # _describe takes a colon as the end of the value and a backslash as
+      # an escape character
+      value="\${completions[i]//\\\\/\\\\\\\\}"
+      value="\${value//:/\\\\:}"
       if [[ -n "\${descriptions[i]}" ]]; then
-        matches+=("\${completions[i]}:\${descriptions[i]}")
+        matches+=("\${value}:\${descriptions[i]//\\\\/\\\\\\\\}")
       else
-        matches+=("\${completions[i]}")
+        matches+=("\${value}")
       fi
     done
     _describe 'commands' matches
-- 
2.43.0


From ccc96ad13b65ab0fb8faa77c3e54a609fa7103a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:24 +0000
Subject: [PATCH 23/39] fix: the fish completion script escapes backslashes in
 its arguments

---
 packages/core/src/completion.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/core/src/completion.ts b/packages/core/src/completion.ts
index dea9b9e..916cdd5 100644
--- a/packages/core/src/completion.ts
+++ b/packages/core/src/completion.ts
@@ -538,7 +538,7 @@ export const fish: ShellCompletion = {
   name: "fish",
   generateScript(programName: string, args: readonly string[] = []): string {
     validateProgramName(programName);
-    const escapedArgs = args.map((arg) => `'${arg.replace(/'/g, "\\'")}'`)
+    const escapedArgs = args.map((arg) => `'${arg.replace(/[\\']/g, "\\$&")}'`)
       .join(" ");
     const functionName = `__${
       programName.replace(/[^a-zA-Z0-9]/g, "_")
-- 
2.43.0


From 8ea82d652db9007095367612898a40dd5f0d9b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:24 +0000
Subject: [PATCH 24/39] fix: option names with a backslash are escaped in man
 pages

---
 packages/man/src/man.ts  | 6 +++---
 packages/man/src/roff.ts | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/packages/man/src/man.ts b/packages/man/src/man.ts
index 8f57812..06852a4 100644
--- a/packages/man/src/man.ts
+++ b/packages/man/src/man.ts
@@ -222,7 +222,7 @@ function formatUsageTermAsRoffInternal(
 
     case "option": {
       const names = term.names
-        .map((name) => `\\fB${escapeHyphens(name)}\\fR`)
+        .map((name) => `\\fB${escapeHyphens(escapeRoff(name))}\\fR`)
         .join(" | ");
       const metavarPart = term.metavar
         ? ` \\fI${escapeRoff(term.metavar)}\\fR`
@@ -349,7 +349,7 @@ function formatDocEntryTerm(term: UsageTerm): string {
   switch (term.type) {
     case "option": {
       const names = term.names
-        .map((name) => `\\fB${escapeHyphens(name)}\\fR`)
+        .map((name) => `\\fB${escapeHyphens(escapeRoff(name))}\\fR`)
         .join(", ");
       const metavarPart = term.metavar
         ? ` \\fI${escapeRoff(term.metavar)}\\fR`
@@ -413,7 +413,7 @@ function formatDocUsageTermAsRoff(term: UsageTerm): string {
 
     case "option": {
       const names = term.names
-        .map((name) => `\\fB${escapeHyphens(name)}\\fR`)
+        .map((name) => `\\fB${escapeHyphens(escapeRoff(name))}\\fR`)
         .join(", ");
       const metavarPart = term.metavar
         ? ` \\fI${escapeRoff(term.metavar)}\\fR`
diff --git a/packages/man/src/roff.ts b/packages/man/src/roff.ts
index 17b2181..fe1a476 100644
--- a/packages/man/src/roff.ts
+++ b/packages/man/src/roff.ts
@@ -145,12 +145,12 @@ function formatTermAsRoff(
 
     case "optionName":
       // Bold with escaped hyphens
-      return `\\fB${escapeHyphens(term.optionName)}\\fR`;
+      return `\\fB${escapeHyphens(escapeBackslashes(term.optionName))}\\fR`;
 
     case "optionNames":
       // Comma-separated bold option names
       return term.optionNames
-        .map((name) => `\\fB${escapeHyphens(name)}\\fR`)
+        .map((name) => `\\fB${escapeHyphens(escapeBackslashes(name))}\\fR`)
         .join(", ");
 
     case "metavar":
-- 
2.43.0


From ed7c0a97665fb9ab23f930c86ef46d25dfa68fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:24 +0000
Subject: [PATCH 25/39] fix: man pages end with a newline, so that a last entry
 without a description is not dropped

---
 packages/man/src/cli.ts | 2 +-
 packages/man/src/man.ts | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/man/src/cli.ts b/packages/man/src/cli.ts
index 4e66d62..418f38b 100644
--- a/packages/man/src/cli.ts
+++ b/packages/man/src/cli.ts
@@ -610,7 +610,7 @@ export async function main(): Promise<void> {
     }
   } else {
     // deno-lint-ignore no-console
-    console.log(manPage);
+    console.log(manPage.replace(/\n$/, ""));
   }
 }
 
diff --git a/packages/man/src/man.ts b/packages/man/src/man.ts
index 06852a4..0fd7d23 100644
--- a/packages/man/src/man.ts
+++ b/packages/man/src/man.ts
@@ -734,5 +734,5 @@ export function formatDocPageAsMan(
     lines.push(formatMessageAsRoff(footer));
   }
 
-  return lines.join("\n");
+  return `${lines.join("\n")}\n`;
 }
-- 
2.43.0


From 8eb877aa1c3c1c125b63b5b455994a1bd8b1cb27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:03 +0000
Subject: [PATCH 26/39] fix: bindDerivedDefault() under optional() no longer
 reads an absent inner state

---
 packages/derived-defaults/src/index.ts | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/packages/derived-defaults/src/index.ts b/packages/derived-defaults/src/index.ts
index 1dae2c0..5c166eb 100644
--- a/packages/derived-defaults/src/index.ts
+++ b/packages/derived-defaults/src/index.ts
@@ -14,9 +14,11 @@ import {
   extractPhase2SeedKey,
   inheritAnnotations,
   injectAnnotations,
+  isInjectedAnnotationState,
   mapModeValue,
   mapSourceMetadata,
   type ParserSourceMetadata,
+  unwrapInjectedAnnotationState,
   withAnnotationView,
   wrapForMode,
 } from "@optique/core/extension";
@@ -325,8 +327,14 @@ export function bindDerivedDefault<
   }
 
   function getInnerState(state: TState): TState {
-    if (!isBindState(state)) return state;
-    if (state.cliState !== undefined) return state.cliState as TState;
+    if (!isBindState(state)) {
+      // A wrapper such as optional() hands over at most bare annotations when
+      // the command line never reached this parser: there is no state yet.
+      const bare = isInjectedAnnotationState(state)
+        ? unwrapInjectedAnnotationState(state)
+        : state;
+      if (bare !== undefined) return state;
+    } else if (state.cliState !== undefined) return state.cliState as TState;
     const initialState = parser.initialState;
     if (initialState != null && typeof initialState !== "object") {
       return initialState;
-- 
2.43.0


From 8a66d9d17882a417c3d8f9c80868e042541486fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:32 +0000
Subject: [PATCH 27/39] fix: bindEnv() hands annotations on to an inner binding
 whose initial state is an object

---
 packages/env/src/index.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/env/src/index.ts b/packages/env/src/index.ts
index ac2280b..10d3dc1 100644
--- a/packages/env/src/index.ts
+++ b/packages/env/src/index.ts
@@ -1127,7 +1127,7 @@ function getEnvOrDefault<M extends Mode, TValue>(
   if (innerParser != null) {
     const completeState = innerState ??
       (annotations != null &&
-          innerParser.initialState == null &&
+          typeof (innerParser.initialState ?? {}) === "object" &&
           getTraits(innerParser).inheritsAnnotations === true
         ? injectAnnotations(innerParser.initialState, annotations)
         : innerParser.initialState);
-- 
2.43.0


From 43dfb242bb34818709639645b95fdbea0d05f2e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:49 +0000
Subject: [PATCH 28/39] fix: a missing file reported by the config file parser
 is not a missing config file

---
 packages/config/src/index.ts | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/packages/config/src/index.ts b/packages/config/src/index.ts
index 7912c04..229964b 100644
--- a/packages/config/src/index.ts
+++ b/packages/config/src/index.ts
@@ -536,9 +536,18 @@ export function createConfigContext<T, TConfigMeta = ConfigMeta>(
           configPath: absoluteConfigPath,
         };
 
+        let contents: Uint8Array;
         try {
-          const contents = readFileSync(absoluteConfigPath);
+          contents = readFileSync(absoluteConfigPath);
+        } catch (error) {
+          // Missing config file is optional in single-file mode.
+          if (isErrnoException(error) && error.code === "ENOENT") {
+            return emptyAnnotations();
+          }
+          throw error;
+        }
 
+        try {
           // Parse file contents
           let rawData: unknown;
           if (rawFileParser) {
@@ -554,10 +563,6 @@ export function createConfigContext<T, TConfigMeta = ConfigMeta>(
             singleFileMeta as TConfigMeta,
           );
         } catch (error) {
-          // Missing config file is optional in single-file mode.
-          if (isErrnoException(error) && error.code === "ENOENT") {
-            return emptyAnnotations();
-          }
           if (error instanceof SyntaxError) {
             throw new Error(
               `Failed to parse config file ` +
-- 
2.43.0


From d63e2fded60256dc9be036315af7a48e32ee7f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:07 +0000
Subject: [PATCH 29/39] fix: ask a prompt around a repeated option that matched
 nothing in a run with contexts

prompt(multiple(...)) skipped its prompt and returned an empty list whenever
annotations were present, because an annotated empty array looked like a
source binding.
---
 packages/prompt/src/index.ts | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/packages/prompt/src/index.ts b/packages/prompt/src/index.ts
index 09882ca..e8b1a00 100644
--- a/packages/prompt/src/index.ts
+++ b/packages/prompt/src/index.ts
@@ -203,6 +203,15 @@ export function createPromptAdapter<TConfig>(
       if (cliState == null) {
         return false;
       }
+      if (
+        Array.isArray(cliState) && cliState.length === 0 &&
+        getTraits(parser).completesFromSource !== true &&
+        typeof parser.shouldDeferCompletion !== "function"
+      ) {
+        // A repeated parser that matched nothing has no source to read from,
+        // no matter which annotations its empty state carries.
+        return false;
+      }
       const cliStateHasAnnotations = getAnnotations(cliState) != null;
       if (cliStateHasAnnotations) {
         return true;
-- 
2.43.0


From 45562ec6755381ef5da5b2ab710a924ccf4f1f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:32 +0000
Subject: [PATCH 30/39] fix: source bindings below map() and group() read their
 source

A bindEnv(), bindConfig() or bindDerivedDefault() wrapped in map() or group()
and placed in an object() or tuple() was never handed the run's annotations,
so the environment, configuration or derived value was ignored.
---
 packages/core/src/annotation-state.ts | 19 +++++++++++++++----
 packages/core/src/constructs.ts       |  9 +++++++++
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/packages/core/src/annotation-state.ts b/packages/core/src/annotation-state.ts
index 6993ad8..702f897 100644
--- a/packages/core/src/annotation-state.ts
+++ b/packages/core/src/annotation-state.ts
@@ -9,6 +9,7 @@ import {
 } from "./internal/annotations.ts";
 import {
   inheritParentAnnotationsKey,
+  unmatchedNonCliDependencySourceStateMarker,
   type Mode,
   type Parser,
 } from "./internal/parser.ts";
@@ -608,6 +609,18 @@ export function isAnnotationWrappedInitialState(state: unknown): boolean {
   return normalizeInjectedAnnotationState(state) === undefined;
 }
 
+/**
+ * Tells whether a child parser takes annotations from its parent's state.
+ * Wrappers cloned by object spread, such as map(), lose the non-enumerable
+ * inheritance mark of a source binding but keep its completion trait.
+ */
+function takesParentAnnotations(
+  parser: Parser<Mode, unknown, unknown>,
+): boolean {
+  return Reflect.get(parser, inheritParentAnnotationsKey) === true ||
+    Reflect.get(parser, unmatchedNonCliDependencySourceStateMarker) === true;
+}
+
 /**
  * Propagates parent annotations into a child parse state when the child parser
  * explicitly opts into parent annotation inheritance.
@@ -628,8 +641,7 @@ export function getWrappedChildParseState<TState>(
   parser: Parser<Mode, unknown, unknown>,
 ): TState {
   const annotations = getAnnotations(parentState);
-  const shouldInheritAnnotations =
-    Reflect.get(parser, inheritParentAnnotationsKey) === true;
+  const shouldInheritAnnotations = takesParentAnnotations(parser);
   if (childState == null) {
     if (annotations !== undefined && shouldInheritAnnotations) {
       return injectAnnotations(childState, annotations);
@@ -669,8 +681,7 @@ export function getWrappedChildState<TState>(
   parser: Parser<Mode, unknown, unknown>,
 ): TState {
   const annotations = getAnnotations(parentState);
-  const shouldInheritAnnotations =
-    Reflect.get(parser, inheritParentAnnotationsKey) === true;
+  const shouldInheritAnnotations = takesParentAnnotations(parser);
   if (childState == null) {
     if (annotations !== undefined && shouldInheritAnnotations) {
       return injectAnnotations(childState, annotations);
diff --git a/packages/core/src/constructs.ts b/packages/core/src/constructs.ts
index 3982a16..36ca0b3 100644
--- a/packages/core/src/constructs.ts
+++ b/packages/core/src/constructs.ts
@@ -78,6 +78,7 @@ import type {
 import {
   defineInheritedAnnotationParser,
   getParserSuggestRuntimeNodes,
+  inheritParentAnnotationsKey,
   unmatchedNonCliDependencySourceStateMarker,
 } from "./internal/parser.ts";
 import type { ParserDependencyMetadata } from "./dependency-metadata.ts";
@@ -13146,6 +13147,11 @@ export function group<M extends Mode, TValue, TState>(
         canSkip: parser.canSkip.bind(parser),
       }
       : {}),
+    // Forward source-backed completion so that a grouped source binding is
+    // completed like a bare one.
+    ...(Reflect.get(parser, unmatchedNonCliDependencySourceStateMarker) === true
+      ? { [unmatchedNonCliDependencySourceStateMarker]: true as const }
+      : {}),
     getSuggestRuntimeNodes(state: TState, path: readonly PropertyKey[]) {
       return parser.getSuggestRuntimeNodes?.(state, path) ??
         (parser.dependencyMetadata?.source != null
@@ -13251,6 +13257,9 @@ export function group<M extends Mode, TValue, TState>(
       };
     },
   };
+  if (Reflect.get(parser, inheritParentAnnotationsKey) === true) {
+    defineInheritedAnnotationParser(groupParser);
+  }
   Object.defineProperty(groupParser, extractPhase2SeedKey, {
     value(state: TState, exec?: ExecutionContext) {
       return extractPhase2Seed(parser, state, exec);
-- 
2.43.0


From 78216b48d505e5ca8fd5f27bb2aafae907912063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:23 +0000
Subject: [PATCH 31/39] fix: a parser whose only values come from bindConfig()
 reaches the second phase

---
 packages/config/src/index.ts | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/packages/config/src/index.ts b/packages/config/src/index.ts
index 229964b..e372898 100644
--- a/packages/config/src/index.ts
+++ b/packages/config/src/index.ts
@@ -28,6 +28,7 @@ import { getAnnotations } from "@optique/core/annotations";
 import {
   defineTraits,
   delegateSuggestNodes,
+  extractPhase2SeedKey,
   inheritAnnotations,
   injectAnnotations,
   mapModeValue,
@@ -891,6 +892,33 @@ export function bindConfig<
       return parser.getDocFragments(state, defaultValue);
     },
   };
+  // Without a CLI value or a default, the first pass cannot complete this
+  // parser: its value comes from the configuration, which is loaded only
+  // after the first pass.  Report the value as deferred instead, so that
+  // a parser with nothing else to seed still reaches the second phase.
+  Object.defineProperty(boundParser, extractPhase2SeedKey, {
+    value(state: TState, exec?: ExecutionContext) {
+      if (!shouldDeferPromptUntilConfigResolves(state)) {
+        const extractInnerPhase2Seed = (parser as typeof parser & {
+          readonly [extractPhase2SeedKey]?: (
+            state: TState,
+            exec?: ExecutionContext,
+          ) => ModeValue<M, unknown>;
+        })[extractPhase2SeedKey];
+        return extractInnerPhase2Seed == null
+          ? wrapForMode(parser.mode, null)
+          : wrapForMode(
+            parser.mode,
+            extractInnerPhase2Seed(getInnerState(state), exec),
+          );
+      }
+      return wrapForMode(parser.mode, {
+        value: undefined as TValue,
+        deferred: true as const,
+      });
+    },
+    configurable: true,
+  });
   defineTraits(boundParser, {
     inheritsAnnotations: true,
     completesFromSource: true,
-- 
2.43.0


From 38c5a2bf28ff1506b88c1ce8965b7721132366e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:45 +0000
Subject: [PATCH 32/39] fix: a value given on the command line survives later
 rounds of tuple() in bound and prompted fields

---
 packages/config/src/index.ts           | 10 +++++++++-
 packages/derived-defaults/src/index.ts |  9 ++++++++-
 packages/env/src/index.ts              | 10 +++++++++-
 packages/prompt/src/index.ts           | 10 +++++++++-
 4 files changed, 35 insertions(+), 4 deletions(-)

diff --git a/packages/config/src/index.ts b/packages/config/src/index.ts
index e372898..280ad66 100644
--- a/packages/config/src/index.ts
+++ b/packages/config/src/index.ts
@@ -817,6 +817,10 @@ export function bindConfig<
         ? { ...context, state: innerState }
         : context;
 
+      // tuple() offers the remaining input again to a parser that already
+      // has its value; parsing nothing then must not discard that value.
+      const hadCliValue = isConfigBindState(context.state) &&
+        context.state.hasCliValue;
       const processResult = (
         result: ParserResult<TState>,
       ): ParserResult<TState> => {
@@ -829,7 +833,7 @@ export function bindConfig<
           const cliConsumed = result.consumed.length > 0;
           const newState = injectAnnotations({
             [configBindStateKey]: true as const,
-            hasCliValue: cliConsumed,
+            hasCliValue: hadCliValue || cliConsumed,
             cliState: result.next.state,
           }, annotations);
           return {
@@ -848,6 +852,10 @@ export function bindConfig<
           return result;
         }
 
+        if (hadCliValue) {
+          return { success: true, next: { ...context }, consumed: [] };
+        }
+
         const newState = injectAnnotations({
           [configBindStateKey]: true as const,
           hasCliValue: false,
diff --git a/packages/derived-defaults/src/index.ts b/packages/derived-defaults/src/index.ts
index 5c166eb..8e617db 100644
--- a/packages/derived-defaults/src/index.ts
+++ b/packages/derived-defaults/src/index.ts
@@ -515,6 +515,10 @@ export function bindDerivedDefault<
       const innerContext = innerState !== context.state
         ? { ...context, state: innerState }
         : context;
+      // tuple() offers the remaining input again to a parser that already
+      // has its value; parsing nothing then must not discard that value.
+      const hadCliValue = isBindState(context.state) &&
+        context.state.hasCliValue;
       const processResult = (
         result: ParserResult<TState>,
       ): ParserResult<TState> => {
@@ -522,7 +526,7 @@ export function bindDerivedDefault<
           const cliConsumed = result.consumed.length > 0;
           const nextState = injectAnnotations({
             [bindStateKey]: true as const,
-            hasCliValue: cliConsumed,
+            hasCliValue: hadCliValue || cliConsumed,
             cliState: result.next.state,
           }, annotations);
           return {
@@ -533,6 +537,9 @@ export function bindDerivedDefault<
           };
         }
         if (result.consumed > 0) return result;
+        if (hadCliValue) {
+          return { success: true, next: { ...context }, consumed: [] };
+        }
         const nextState = injectAnnotations({
           [bindStateKey]: true as const,
           hasCliValue: false,
diff --git a/packages/env/src/index.ts b/packages/env/src/index.ts
index 10d3dc1..c32e2b0 100644
--- a/packages/env/src/index.ts
+++ b/packages/env/src/index.ts
@@ -801,6 +801,10 @@ export function bindEnv<
         ? { ...context, state: innerState }
         : context;
 
+      // tuple() offers the remaining input again to a parser that already
+      // has its value; parsing nothing then must not discard that value.
+      const hadCliValue = isEnvBindState(context.state) &&
+        context.state.hasCliValue;
       const processResult = (
         result: ParserResult<TState>,
       ): ParserResult<TState> => {
@@ -813,7 +817,7 @@ export function bindEnv<
           const cliConsumed = result.consumed.length > 0;
           const nextState = injectAnnotations({
             [envBindStateKey]: true as const,
-            hasCliValue: cliConsumed,
+            hasCliValue: hadCliValue || cliConsumed,
             cliState: result.next.state,
           }, annotations);
           return {
@@ -832,6 +836,10 @@ export function bindEnv<
           return result;
         }
 
+        if (hadCliValue) {
+          return { success: true, next: { ...context }, consumed: [] };
+        }
+
         const nextState = injectAnnotations({
           [envBindStateKey]: true as const,
           hasCliValue: false,
diff --git a/packages/prompt/src/index.ts b/packages/prompt/src/index.ts
index e8b1a00..bd583ec 100644
--- a/packages/prompt/src/index.ts
+++ b/packages/prompt/src/index.ts
@@ -312,6 +312,10 @@ export function createPromptAdapter<TConfig>(
             parserInheritsAnnotations
           ? injectAnnotations(innerState, annotations)
           : innerState;
+        // tuple() offers the remaining input again to a parser that already
+        // has its value; parsing nothing then must not discard that value.
+        const hadCliValue = isPromptBindState(context.state) &&
+          context.state.hasCliValue;
         const processResult = (
           result: ParserResult<TState>,
         ): ParserResult<TState> => {
@@ -325,7 +329,7 @@ export function createPromptAdapter<TConfig>(
             const cliConsumed = result.consumed.length > 0;
             const nextState = injectAnnotations({
               [promptBindStateKey]: true as const,
-              hasCliValue: cliConsumed,
+              hasCliValue: hadCliValue || cliConsumed,
               cliState,
             }, annotations);
             return {
@@ -340,6 +344,10 @@ export function createPromptAdapter<TConfig>(
             return result;
           }
 
+          if (hadCliValue) {
+            return { success: true, next: { ...context }, consumed: [] };
+          }
+
           const nextState = injectAnnotations({
             [promptBindStateKey]: true as const,
             hasCliValue: false,
-- 
2.43.0


From 269f741e7e3f4091aac3b47d1675f217852d8341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:14 +0000
Subject: [PATCH 33/39] fix: an inner binding keeps its contexts when tuple()
 offers it input again

---
 packages/config/src/index.ts           | 2 +-
 packages/derived-defaults/src/index.ts | 2 +-
 packages/env/src/index.ts              | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/packages/config/src/index.ts b/packages/config/src/index.ts
index 280ad66..234d24a 100644
--- a/packages/config/src/index.ts
+++ b/packages/config/src/index.ts
@@ -811,7 +811,7 @@ export function bindConfig<
       const innerState = isConfigBindState(context.state)
         ? (context.state.hasCliValue
           ? (context.state.cliState as TState)
-          : parser.initialState)
+          : getInnerState(context.state))
         : context.state;
       const innerContext = innerState !== context.state
         ? { ...context, state: innerState }
diff --git a/packages/derived-defaults/src/index.ts b/packages/derived-defaults/src/index.ts
index 8e617db..0190e56 100644
--- a/packages/derived-defaults/src/index.ts
+++ b/packages/derived-defaults/src/index.ts
@@ -510,7 +510,7 @@ export function bindDerivedDefault<
       const innerState = isBindState(context.state)
         ? (context.state.hasCliValue
           ? context.state.cliState as TState
-          : parser.initialState)
+          : getInnerState(context.state))
         : context.state;
       const innerContext = innerState !== context.state
         ? { ...context, state: innerState }
diff --git a/packages/env/src/index.ts b/packages/env/src/index.ts
index c32e2b0..c0d8d8f 100644
--- a/packages/env/src/index.ts
+++ b/packages/env/src/index.ts
@@ -795,7 +795,7 @@ export function bindEnv<
       const innerState = isEnvBindState(context.state)
         ? (context.state.hasCliValue
           ? (context.state.cliState as TState)
-          : parser.initialState)
+          : getInnerState(context.state))
         : context.state;
       const innerContext = innerState !== context.state
         ? { ...context, state: innerState }
-- 
2.43.0


From 6b4aaf389bd2ed8a2bfbd64708984ba97af0adac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:14 +0000
Subject: [PATCH 34/39] fix: bindEnv() forwards phase-two seed extraction to an
 inner binding

---
 packages/env/src/index.ts | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/packages/env/src/index.ts b/packages/env/src/index.ts
index c0d8d8f..e8d40fa 100644
--- a/packages/env/src/index.ts
+++ b/packages/env/src/index.ts
@@ -6,6 +6,7 @@ import {
   defineTraits,
   delegateSuggestNodes,
   dispatchByMode,
+  extractPhase2SeedKey,
   getTraits,
   inheritAnnotations,
   injectAnnotations,
@@ -891,6 +892,22 @@ export function bindEnv<
       return parser.getDocFragments(state, defaultValue);
     },
   };
+  // Forward phase-two seed extraction so that an inner binding whose value
+  // comes from a context still waiting for its first-pass data is deferred.
+  const innerParser = parser as typeof parser & {
+    readonly [extractPhase2SeedKey]?: (
+      state: TState,
+      exec?: ExecutionContext,
+    ) => ModeValue<M, unknown>;
+  };
+  if (innerParser[extractPhase2SeedKey] != null) {
+    Object.defineProperty(boundParser, extractPhase2SeedKey, {
+      value(state: TState, exec?: ExecutionContext) {
+        return innerParser[extractPhase2SeedKey]?.(getInnerState(state), exec);
+      },
+      configurable: true,
+    });
+  }
   defineTraits(boundParser, {
     inheritsAnnotations: true,
     completesFromSource: true,
-- 
2.43.0


From be77e9f68d9ce107fd905f2411758d9d00e62f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:48 +0000
Subject: [PATCH 35/39] fix: or() and longestMatch() document their branches
 when contexts annotate the state

---
 packages/core/src/constructs.ts | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/packages/core/src/constructs.ts b/packages/core/src/constructs.ts
index 36ca0b3..9b9ff3e 100644
--- a/packages/core/src/constructs.ts
+++ b/packages/core/src/constructs.ts
@@ -4229,15 +4229,19 @@ export function or(
       let description: Message | undefined;
       let footer: Message | undefined;
       let fragments: readonly DocFragment[];
+      // The runners' contexts may have injected annotations into the state.
+      const activeState = state.kind === "available"
+        ? normalizeExclusiveState(state.state)
+        : undefined;
 
-      if (state.kind === "unavailable" || state.state == null) {
+      if (activeState == null) {
         // When state is unavailable or null, show all parser options
         fragments = parsers.flatMap((p) =>
           p.getDocFragments({ kind: "unavailable" }, undefined).fragments
         );
       } else {
         // When state is available and has a value, show only the selected parser
-        const [index, parserResult] = state.state;
+        const [index, parserResult] = activeState;
         const innerState: DocState<unknown> = parserResult.success
           ? { kind: "available", state: parserResult.next.state }
           : { kind: "unavailable" };
@@ -4251,11 +4255,11 @@ export function or(
         fragments = docFragments.fragments;
       }
       // When a single branch matched successfully, pass its fragments
-      // Only deduplicate when showing all branches.  When state.state is
+      // Only deduplicate when showing all branches.  When activeState is
       // set, fragments come from a single branch (whether successful or
       // failed), so cross-branch dedup does not apply and would collapse
       // intentional duplicates (e.g., allowDuplicates).
-      if (state.kind === "unavailable" || state.state == null) {
+      if (activeState == null) {
         fragments = deduplicateDocFragments(fragments);
       }
       return {
@@ -4980,14 +4984,18 @@ function createLongestMatch(
       let fragments: readonly DocFragment[];
 
       let shouldDeduplicate: boolean;
-      if (state.kind === "unavailable" || state.state == null) {
+      // The runners' contexts may have injected annotations into the state.
+      const activeState = state.kind === "available"
+        ? normalizeExclusiveState(state.state)
+        : undefined;
+      if (activeState == null) {
         // When state is unavailable or null, show all parser options
         fragments = parsers.flatMap((p) =>
           p.getDocFragments({ kind: "unavailable" }).fragments
         );
         shouldDeduplicate = true;
       } else {
-        const [i, result] = state.state;
+        const [i, result] = activeState;
         if (result.success) {
           const docResult = parsers[i].getDocFragments(
             { kind: "available", state: result.next.state },
-- 
2.43.0


From c5a7264a9d609ef0913f9d46641ce19aa355795b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:10:45 +0000
Subject: [PATCH 36/39] fix: generated modules import hidden files and names
 with line breaks

---
 packages/discover/src/generator.ts | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/packages/discover/src/generator.ts b/packages/discover/src/generator.ts
index 8a02e35..9d5b931 100644
--- a/packages/discover/src/generator.ts
+++ b/packages/discover/src/generator.ts
@@ -554,7 +554,9 @@ function displayCommandPath(path: readonly string[]): string {
 
 function relativeModuleSpecifier(fromDir: string, target: string): string {
   const relativePath = normalizeRelativePath(relative(fromDir, target));
-  return relativePath.startsWith(".") ? relativePath : `./${relativePath}`;
+  return /^\.\.?(?:\/|$)/.test(relativePath)
+    ? relativePath
+    : `./${relativePath}`;
 }
 
 function relativeImportSpecifier(fromDir: string, target: string): string {
@@ -566,8 +568,7 @@ function relativeImportSpecifier(fromDir: string, target: string): string {
 }
 
 function requiresEncodedImportSpecifier(specifier: string): boolean {
-  return specifier.includes("#") || specifier.includes("?") ||
-    specifier.includes("%");
+  return /[#?%\t\n\r]/.test(specifier);
 }
 
 function encodeImportSpecifier(specifier: string): string {
-- 
2.43.0


From f3d59eaea2a249ee7a2d3213bcbeb72f3a3e16c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:10:45 +0000
Subject: [PATCH 37/39] fix: a subcommand name selects the subcommand even if
 the parent command takes positionals

---
 packages/discover/src/index.ts | 46 ++++++++++++++++++++++++++++------
 1 file changed, 39 insertions(+), 7 deletions(-)

diff --git a/packages/discover/src/index.ts b/packages/discover/src/index.ts
index 11f0974..0bad6f3 100644
--- a/packages/discover/src/index.ts
+++ b/packages/discover/src/index.ts
@@ -1181,14 +1181,46 @@ function createExecutableNodeParser(
         );
       }
 
-      const result = parser.parse({
-        ...context,
-        state: toExclusiveState(activeState, context.state),
-      });
-      return mapModeValue(
+      const parseInitial = () =>
+        mapModeValue(
+          parser.mode,
+          wrapForMode(
+            parser.mode,
+            parser.parse({
+              ...context,
+              state: toExclusiveState(activeState, context.state),
+            }),
+          ),
+          (resolved) => wrapInitialParseResult(context, resolved),
+        );
+      if (activeState != null) return parseInitial();
+
+      // A subcommand name always selects the subcommand, no matter how many
+      // tokens the parent command's own positionals could take in one step.
+      const childContext = withExecutableNodeChildContext(
+        context,
+        0,
+        inheritAnnotations(context.state, childParser.initialState),
+        childParser,
+      );
+      const select = (result: ParserResult<unknown>) =>
+        result.success && result.consumed.length > 0
+          ? wrapForMode(
+            parser.mode,
+            wrapBranchParseResult(
+              context,
+              { branch: 0, result, committed: true },
+              result,
+            ),
+          )
+          : parseInitial();
+      return dispatchByMode(
         parser.mode,
-        wrapForMode(parser.mode, result),
-        (resolved) => wrapInitialParseResult(context, resolved),
+        () =>
+          select(
+            childParser.parse(childContext) as ParserResult<unknown>,
+          ) as ParserResult<ExecutableNodeParserState>,
+        async () => await select(await childParser.parse(childContext)),
       );
     },
     complete(state, exec) {
-- 
2.43.0


From fefa023a50bd68b101155b4a072ee8cd935b1d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:10:45 +0000
Subject: [PATCH 38/39] fix: a failing substitution hook no longer skips the
 whole dotenv file

---
 packages/env/src/index.ts | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/packages/env/src/index.ts b/packages/env/src/index.ts
index e8d40fa..874c88c 100644
--- a/packages/env/src/index.ts
+++ b/packages/env/src/index.ts
@@ -518,20 +518,21 @@ function loadEnvFileValues(
   const values = new Map<string, string>();
   for (const path of options.paths) {
     const absolutePath = resolvePath(path);
+    let contents: string;
     try {
-      const contents = readFileSync(absolutePath, "utf8");
-      const parsedValues = parseEnvFile(
-        contents,
-        absolutePath,
-        source,
-        options.substitute,
-        values,
-      );
-      for (const [key, value] of parsedValues) values.set(key, value);
+      contents = readFileSync(absolutePath, "utf8");
     } catch (error) {
       if (isErrnoException(error) && error.code === "ENOENT") continue;
       throw error;
     }
+    const parsedValues = parseEnvFile(
+      contents,
+      absolutePath,
+      source,
+      options.substitute,
+      values,
+    );
+    for (const [key, value] of parsedValues) values.set(key, value);
   }
   return values;
 }
-- 
2.43.0


From 33f348f0c16d39ba96c832ac4f4c0016fcc38a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:35 +0000
Subject: [PATCH 39/39] fix: shell completion takes file extensions literally,
 not as patterns

---
 packages/core/src/completion.ts | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/packages/core/src/completion.ts b/packages/core/src/completion.ts
index 916cdd5..0f9abac 100644
--- a/packages/core/src/completion.ts
+++ b/packages/core/src/completion.ts
@@ -239,12 +239,19 @@ function _${programName} () {
           # Complete files and directories (directories for navigation)
           if [[ -n "$extensions" ]]; then
             # Files with extension filtering + directories
-            local ext_pattern="\${extensions//,/|}"
+            local __ext
+            local -a __ext_list
+            IFS=',' read -ra __ext_list <<< "$extensions"
             for item in "\${__candidates[@]}"; do
               if [[ -d "$item" ]]; then
                 COMPREPLY+=("$item/")
-              elif [[ -f "$item" && "$item" =~ \\.($ext_pattern)$ ]]; then
-                COMPREPLY+=("$item")
+              elif [[ -f "$item" ]]; then
+                for __ext in "\${__ext_list[@]}"; do
+                  if [[ "$item" == *".$__ext" ]]; then
+                    COMPREPLY+=("$item")
+                    break
+                  fi
+                done
               fi
             done
           else
@@ -269,12 +276,19 @@ function _${programName} () {
           if [[ -n "$extensions" ]]; then
             # Files with extension filtering + directories
             # Files with extension filtering
-            local ext_pattern="\${extensions//,/|}"
+            local __ext
+            local -a __ext_list
+            IFS=',' read -ra __ext_list <<< "$extensions"
             for item in "\${__candidates[@]}"; do
               if [[ -d "$item" ]]; then
                 COMPREPLY+=("$item/")
-              elif [[ ( -e "$item" || -L "$item" ) && "$item" =~ \\.($ext_pattern)$ ]]; then
-                COMPREPLY+=("$item")
+              elif [[ -e "$item" || -L "$item" ]]; then
+                for __ext in "\${__ext_list[@]}"; do
+                  if [[ "$item" == *".$__ext" ]]; then
+                    COMPREPLY+=("$item")
+                    break
+                  fi
+                done
               fi
             done
           else
@@ -431,6 +445,8 @@ function _${programName.replace(/[^a-zA-Z0-9]/g, "_")} () {
 
         local ext_pattern=""
         if [[ -n "\$extensions" ]]; then
+          # Extensions are literal text, not patterns
+          extensions="\${(b)extensions}"
           if [[ "\$extensions" == *,* ]]; then
             ext_pattern="*.(\${extensions//,/|})"
           else
@@ -757,7 +773,7 @@ ${
                     end
                     # Check if file matches any extension
                     for ext in $ext_list
-                        if string match -q "*.$ext" -- $item
+                        if string match -qr -- (string escape --style=regex -- ".$ext")'$' $item
                             set -a filtered $item
                             break
                         end
-- 
2.43.0

