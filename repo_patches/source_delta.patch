From 2bb06e5bbf3b3747beccca70221575373bc1fde8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:26 +0000
Subject: [PATCH 01/35] fix: mark coroutines as done when their body fails

A coroutine whose body ended with an error or an unexpected result stayed
active, and yielding a value to it crashed on the empty process stack.
---
 src/helena_dialect/coroutines.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/helena_dialect/coroutines.go b/src/helena_dialect/coroutines.go
index 8f6aa2e..937ed66 100644
--- a/src/helena_dialect/coroutines.go
+++ b/src/helena_dialect/coroutines.go
@@ -103,8 +103,10 @@ func (cmd *coroutineCommand) run() core.Result {
 	case core.ResultCode_YIELD:
 		return core.OK(result.Value)
 	case core.ResultCode_ERROR:
+		cmd.state = coroutineState_done
 		return result
 	default:
+		cmd.state = coroutineState_done
 		return core.ERROR("unexpected " + core.RESULT_CODE_NAME(result))
 	}
 }
-- 
2.43.0


From c6276f20a0f8d2faad4d1ca7f8df4699c95c8c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:27 +0000
Subject: [PATCH 02/35] fix: refuse to resume a coroutine from its own body

Waiting on or yielding to a coroutine that is currently running re-entered
its process and executed its body again.
---
 src/helena_dialect/coroutines.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/helena_dialect/coroutines.go b/src/helena_dialect/coroutines.go
index 937ed66..41cbf46 100644
--- a/src/helena_dialect/coroutines.go
+++ b/src/helena_dialect/coroutines.go
@@ -16,6 +16,7 @@ type coroutineCommand struct {
 	body    core.ScriptValue
 	state   coroutineState
 	process *Process
+	running bool
 }
 
 func newCoroutineCommand(scope *Scope, body core.ScriptValue) *coroutineCommand {
@@ -54,6 +55,9 @@ func (cmd *coroutineCommand) Execute(args []core.Value, _ any) core.Result {
 		if len(args) != 2 {
 			return ARITY_ERROR("<coroutine> wait")
 		}
+		if cmd.running {
+			return core.ERROR("coroutine is running")
+		}
 		if cmd.state == coroutineState_inactive {
 			cmd.state = coroutineState_active
 			program := cmd.scope.CompileScriptValue(cmd.body)
@@ -83,6 +87,9 @@ func (cmd *coroutineCommand) Execute(args []core.Value, _ any) core.Result {
 		if cmd.state == coroutineState_done {
 			return core.ERROR("coroutine is done")
 		}
+		if cmd.running {
+			return core.ERROR("coroutine is running")
+		}
 		if len(args) == 3 {
 			cmd.process.YieldBack(args[2])
 		}
@@ -94,7 +101,9 @@ func (cmd *coroutineCommand) Execute(args []core.Value, _ any) core.Result {
 }
 
 func (cmd *coroutineCommand) run() core.Result {
+	cmd.running = true
 	result := cmd.process.Run()
+	cmd.running = false
 	switch result.Code {
 	case core.ResultCode_OK,
 		core.ResultCode_RETURN:
-- 
2.43.0


From ea1a016bcf126c4d4a1a96649a3dfbcd25f3beaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:29 +0000
Subject: [PATCH 03/35] fix: clear the yield code when resuming a non-resumable
 command

The last result kept its YIELD code after resumption, so that a following
intrinsic command (^ or |>) suspended the script a second time.
---
 src/core/compiler.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/compiler.go b/src/core/compiler.go
index a9a5a89..d7cad39 100644
--- a/src/core/compiler.go
+++ b/src/core/compiler.go
@@ -781,6 +781,8 @@ func (executor *Executor) ExecuteUntil(program *Program, state *ProgramState, st
 			if result.Code != ResultCode_OK {
 				return result
 			}
+		} else {
+			state.SetResult(OK(state.Result.Value))
 		}
 	}
 	for state.PC < stop {
-- 
2.43.0


From 96bc0b84f5b7fde0198b6378b31507e945239514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:30 +0000
Subject: [PATCH 04/35] fix: run the body of catch without handlers in a
 process

The body was executed without a process, so that any command in it needing
a continuation (if, loops, procedures...) ended the body there and catch
returned the internal continuation as a yielded value.
---
 src/helena_dialect/controls.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/helena_dialect/controls.go b/src/helena_dialect/controls.go
index 537d40c..1759852 100644
--- a/src/helena_dialect/controls.go
+++ b/src/helena_dialect/controls.go
@@ -606,7 +606,7 @@ func (cmd catchCmd) Execute(args []core.Value, context any) core.Result {
 			return core.ERROR("body must be a script")
 		}
 		program := scope.CompileScriptValue(body.(core.ScriptValue))
-		result := scope.Execute(program, nil)
+		result := scope.PrepareProcess(program).Run()
 		codeName := core.STR(core.RESULT_CODE_NAME(result))
 		switch result.Code {
 		case core.ResultCode_OK,
-- 
2.43.0


From bdd0a009ef20a3828b5cd73dd85355f880456970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:31 +0000
Subject: [PATCH 05/35] fix: run argument default scripts in a process

Default scripts using any command that needs a continuation (if, loops,
procedures...) failed with "unexpected yield".
---
 src/helena_dialect/argspecs.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/helena_dialect/argspecs.go b/src/helena_dialect/argspecs.go
index 5cd7a8b..6d66b2c 100644
--- a/src/helena_dialect/argspecs.go
+++ b/src/helena_dialect/argspecs.go
@@ -170,7 +170,7 @@ func (argspec ArgspecValue) setSlotValues(
 					program := scope.CompileScriptValue(
 						arg.Default.(core.ScriptValue),
 					)
-					result := scope.Execute(program, nil)
+					result := scope.PrepareProcess(program).Run()
 					switch result.Code {
 					case core.ResultCode_OK:
 						value = result.Value
@@ -376,7 +376,7 @@ func (argspec ArgspecValue) setPositionalSlotValues(
 					program := scope.CompileScriptValue(
 						arg.Default.(core.ScriptValue),
 					)
-					result := scope.Execute(program, nil)
+					result := scope.PrepareProcess(program).Run()
 					switch result.Code {
 					case core.ResultCode_OK:
 						value = result.Value
-- 
2.43.0


From 8e6241fa77080388007e595a03e9edd8fe33d113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:32 +0000
Subject: [PATCH 06/35] fix: resume catch after an unhandled yield

A body yielding in a catch with handlers but no yield handler ends the
catch with the yield result; resuming it crashed on the missing state.
---
 src/helena_dialect/controls.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/helena_dialect/controls.go b/src/helena_dialect/controls.go
index 1759852..20e1dac 100644
--- a/src/helena_dialect/controls.go
+++ b/src/helena_dialect/controls.go
@@ -622,7 +622,11 @@ func (cmd catchCmd) Execute(args []core.Value, context any) core.Result {
 }
 func (cmd catchCmd) Resume(result core.Result, context any) core.Result {
 	scope := context.(*Scope)
-	state := result.Data.(*catchState)
+	state, ok := result.Data.(*catchState)
+	if !ok {
+		// Body result was passed through after completion
+		return core.OK(result.Value)
+	}
 	if state.step == catchStateStep_inBody {
 		state.bodyProcess.YieldBack(result.Value)
 	} else {
-- 
2.43.0


From c6da33956080cd875d58501274b4c4121e8cec87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:33 +0000
Subject: [PATCH 07/35] fix: copy remainder arguments of commands with options

The remainder tuple aliased the execution stack of the caller and changed
as soon as the caller evaluated its next commands.
---
 src/helena_dialect/argspecs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/helena_dialect/argspecs.go b/src/helena_dialect/argspecs.go
index 6d66b2c..ce9f0e3 100644
--- a/src/helena_dialect/argspecs.go
+++ b/src/helena_dialect/argspecs.go
@@ -193,7 +193,7 @@ func (argspec ArgspecValue) setSlotValues(
 					value = core.TUPLE([]core.Value{})
 				} else {
 					value = core.TUPLE(
-						args[slots[slot] : slots[slot]+int(remainders)],
+						append([]core.Value{}, args[slots[slot]:slots[slot]+int(remainders)]...),
 					)
 				}
 			}
-- 
2.43.0


From ec0b0d14a933519ca445f455a90b65344dc6964d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:34 +0000
Subject: [PATCH 08/35] fix: copy arguments retained by control and logic
 commands

Ensembles with simple arguments shift the argument array in place for the
duration of the subcommand call; if, catch, && and || used as subcommands
kept a reference to it while suspended and then read shifted arguments.
---
 src/helena_dialect/controls.go | 7 +++++--
 src/helena_dialect/logic.go    | 4 ++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/helena_dialect/controls.go b/src/helena_dialect/controls.go
index 20e1dac..c14bae5 100644
--- a/src/helena_dialect/controls.go
+++ b/src/helena_dialect/controls.go
@@ -353,7 +353,7 @@ func ifCmdTest(scope *Scope, args []core.Value, i int) core.Result {
 		state := ifCmdStatePool.Get().(*ifCmdState)
 		state.scope = scope
 		state.i = i
-		state.args = args
+		state.args = append([]core.Value{}, args...) // Args are only valid during call
 		return CreateContinuationValueWithCallback(scope, program, state, func(result core.Result, data any) core.Result {
 			state := data.(*ifCmdState)
 			ifCmdStatePool.Put(state)
@@ -618,7 +618,10 @@ func (cmd catchCmd) Execute(args []core.Value, context any) core.Result {
 			return core.OK(core.TUPLE([]core.Value{core.STR(core.RESULT_CODE_NAME(result))}))
 		}
 	}
-	return cmd.run(&catchState{step: catchStateStep_beforeBody, args: args}, scope)
+	return cmd.run(&catchState{
+		step: catchStateStep_beforeBody,
+		args: append([]core.Value{}, args...), // Args are only valid during call
+	}, scope)
 }
 func (cmd catchCmd) Resume(result core.Result, context any) core.Result {
 	scope := context.(*Scope)
diff --git a/src/helena_dialect/logic.go b/src/helena_dialect/logic.go
index 260f6a1..943d02f 100644
--- a/src/helena_dialect/logic.go
+++ b/src/helena_dialect/logic.go
@@ -248,7 +248,7 @@ func andCmdCondition(scope *Scope, args []core.Value, i int) core.Result {
 		state := andCmdStatePool.Get().(*andCmdState)
 		state.scope = scope
 		state.i = i
-		state.args = args
+		state.args = append([]core.Value{}, args...) // Args are only valid during call
 		return CreateContinuationValueWithCallback(scope, program, state, func(result core.Result, data any) core.Result {
 			state := data.(*andCmdState)
 			andCmdStatePool.Put(state)
@@ -297,7 +297,7 @@ func orCmdCondition(scope *Scope, args []core.Value, i int) core.Result {
 		state := andCmdStatePool.Get().(*andCmdState)
 		state.scope = scope
 		state.i = i
-		state.args = args
+		state.args = append([]core.Value{}, args...) // Args are only valid during call
 		return CreateContinuationValueWithCallback(scope, program, state, func(result core.Result, data any) core.Result {
 			state := data.(*andCmdState)
 			andCmdStatePool.Put(state)
-- 
2.43.0


From b1f4c5cba07902347ac7b683af03ece77e20d77b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:16 +0000
Subject: [PATCH 09/35] fix: do not leak the resume data of a catch body

An unhandled yield was passed on with the state of the command that
suspended in the body; with nested catches the outer one then resumed
the state of the inner one.
---
 src/helena_dialect/controls.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/helena_dialect/controls.go b/src/helena_dialect/controls.go
index c14bae5..d638b5d 100644
--- a/src/helena_dialect/controls.go
+++ b/src/helena_dialect/controls.go
@@ -666,6 +666,10 @@ func (cmd catchCmd) run(state *catchState, scope *Scope) core.Result {
 				i := cmd.findHandlerIndex(state.bodyResult.Code, state.args)
 				if i >= len(state.args)-1 {
 					state.result = state.bodyResult
+					if state.result.Code == core.ResultCode_YIELD {
+						// Resume data belongs to the body, which is now over
+						state.result = core.YIELD(state.bodyResult.Value)
+					}
 					state.step = catchStateStep_beforeFinally
 					continue
 				}
-- 
2.43.0


From fd12974b1bde66aff0223698d1a592524b577a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:17 +0000
Subject: [PATCH 10/35] fix: do not read command states after returning them to
 their pool

An interpreter running in another thread could take the pooled object and
overwrite it before loop, while, if, when, && and || had read the last
result, arguments or scope from it.
---
 src/helena_dialect/controls.go | 29 ++++++++++++++++++-----------
 src/helena_dialect/logic.go    |  6 ++++--
 2 files changed, 22 insertions(+), 13 deletions(-)

diff --git a/src/helena_dialect/controls.go b/src/helena_dialect/controls.go
index d638b5d..b55d2a7 100644
--- a/src/helena_dialect/controls.go
+++ b/src/helena_dialect/controls.go
@@ -145,8 +145,9 @@ func loopCmdNextIteration(state *loopCmdState) core.Result {
 }
 func loopCmdNextSource(state *loopCmdState) core.Result {
 	if state.activeSources == 0 && len(state.sources) > 0 {
+		lastResult := state.lastResult
 		loopCmdStatePool.Put(state)
-		return state.lastResult
+		return lastResult
 	}
 	state.iSource++
 	if state.iSource >= len(state.sources) {
@@ -191,8 +192,9 @@ func loopCmdBody(state *loopCmdState) core.Result {
 		state := data.(*loopCmdState)
 		switch result.Code {
 		case core.ResultCode_BREAK:
+			lastResult := state.lastResult
 			loopCmdStatePool.Put(state)
-			return state.lastResult
+			return lastResult
 		case core.ResultCode_CONTINUE:
 		case core.ResultCode_OK:
 			state.lastResult = result
@@ -266,8 +268,9 @@ func whileCmdLoop(state *whileCmdState) core.Result {
 		state := data.(*whileCmdState)
 		switch result.Code {
 		case core.ResultCode_BREAK:
+			lastResult := state.lastResult
 			whileCmdStatePool.Put(state)
-			return state.lastResult
+			return lastResult
 		case core.ResultCode_CONTINUE:
 		case core.ResultCode_OK:
 			state.lastResult = result
@@ -291,15 +294,17 @@ func whileCmdTest(state *whileCmdState) core.Result {
 			return result2
 		}
 		if !b {
+			lastResult := state.lastResult
 			whileCmdStatePool.Put(state)
-			return state.lastResult
+			return lastResult
 		}
 		return CreateContinuationValueWithCallback(state.scope, state.bodyProgram, state, func(result core.Result, data any) core.Result {
 			state := data.(*whileCmdState)
 			switch result.Code {
 			case core.ResultCode_BREAK:
+				lastResult := state.lastResult
 				whileCmdStatePool.Put(state)
-				return state.lastResult
+				return lastResult
 			case core.ResultCode_CONTINUE:
 			case core.ResultCode_OK:
 				state.lastResult = result
@@ -356,11 +361,12 @@ func ifCmdTest(scope *Scope, args []core.Value, i int) core.Result {
 		state.args = append([]core.Value{}, args...) // Args are only valid during call
 		return CreateContinuationValueWithCallback(scope, program, state, func(result core.Result, data any) core.Result {
 			state := data.(*ifCmdState)
+			scope, args, i := state.scope, state.args, state.i
 			ifCmdStatePool.Put(state)
 			if result.Code != core.ResultCode_OK {
 				return result
 			}
-			return ifCmdNext(result.Value, state.scope, state.args, state.i)
+			return ifCmdNext(result.Value, scope, args, i)
 		})
 	} else {
 		return ifCmdNext(test, scope, args, i)
@@ -550,18 +556,19 @@ func whenCmdTest(command core.Value, state *whenCmdState) core.Result {
 	})
 }
 func whenCmdBody(state *whenCmdState) core.Result {
+	scope, cases, i := state.scope, state.cases, state.i
 	whenCmdStatePool.Put(state)
 	var body core.Value
-	if state.i == len(state.cases)-1 {
-		body = state.cases[state.i]
+	if i == len(cases)-1 {
+		body = cases[i]
 	} else {
-		body = state.cases[state.i+1]
+		body = cases[i+1]
 	}
 	if body.Type() != core.ValueType_SCRIPT {
 		return core.ERROR("body must be a script")
 	}
-	program := state.scope.CompileScriptValue(body.(core.ScriptValue))
-	return CreateContinuationValue(state.scope, program)
+	program := scope.CompileScriptValue(body.(core.ScriptValue))
+	return CreateContinuationValue(scope, program)
 }
 func (whenCmd) Help(args []core.Value, _ core.CommandHelpOptions, _ any) core.Result {
 	if len(args) > 3 {
diff --git a/src/helena_dialect/logic.go b/src/helena_dialect/logic.go
index 943d02f..e95a08d 100644
--- a/src/helena_dialect/logic.go
+++ b/src/helena_dialect/logic.go
@@ -251,11 +251,12 @@ func andCmdCondition(scope *Scope, args []core.Value, i int) core.Result {
 		state.args = append([]core.Value{}, args...) // Args are only valid during call
 		return CreateContinuationValueWithCallback(scope, program, state, func(result core.Result, data any) core.Result {
 			state := data.(*andCmdState)
+			scope, args, i := state.scope, state.args, state.i
 			andCmdStatePool.Put(state)
 			if result.Code != core.ResultCode_OK {
 				return result
 			}
-			return andCmdNext(result.Value, state.scope, state.args, state.i)
+			return andCmdNext(result.Value, scope, args, i)
 		})
 	}
 	// TODO ensure tail call in trampoline, or unroll in caller
@@ -300,11 +301,12 @@ func orCmdCondition(scope *Scope, args []core.Value, i int) core.Result {
 		state.args = append([]core.Value{}, args...) // Args are only valid during call
 		return CreateContinuationValueWithCallback(scope, program, state, func(result core.Result, data any) core.Result {
 			state := data.(*andCmdState)
+			scope, args, i := state.scope, state.args, state.i
 			andCmdStatePool.Put(state)
 			if result.Code != core.ResultCode_OK {
 				return result
 			}
-			return orCmdNext(result.Value, state.scope, state.args, state.i)
+			return orCmdNext(result.Value, scope, args, i)
 		})
 	}
 	// TODO ensure tail call in trampoline, or unroll in caller
-- 
2.43.0


From 7b0ddf55299c3eefc4d9735dfe6e971a586deb2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:18 +0000
Subject: [PATCH 11/35] fix: set argspec variables all or none, in argument
 order

"argspec set" failing on one variable left others set, depending on the map
iteration order, and the same order decided which error was reported.
---
 src/helena_dialect/core.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/helena_dialect/core.go b/src/helena_dialect/core.go
index b0361eb..db7664a 100644
--- a/src/helena_dialect/core.go
+++ b/src/helena_dialect/core.go
@@ -2,6 +2,7 @@ package helena_dialect
 
 import (
 	"helena/core"
+	"sort"
 	"sync"
 )
 
@@ -493,15 +494,22 @@ func (scope *Scope) SetNamedVariable(name string, value core.Value) core.Result
 	return core.OK(value)
 }
 func (scope *Scope) SetNamedVariables(slots map[string]uint, values []core.Value) core.Result {
+	names := make([]string, 0, len(slots))
 	for name, slot := range slots {
-		if values[slot] == nil {
-			continue
+		if values[slot] != nil {
+			names = append(names, name)
 		}
-		result := scope.SetNamedVariable(name, values[slot])
+	}
+	sort.Slice(names, func(i, j int) bool { return slots[names[i]] < slots[names[j]] })
+	for _, name := range names {
+		result := scope.checkNamedVariable(name)
 		if result.Code != core.ResultCode_OK {
 			return result
 		}
 	}
+	for _, name := range names {
+		scope.Context.Variables[name] = values[slots[name]]
+	}
 	return core.OK(core.NIL)
 }
 func (scope *Scope) DestructureVariable(variable core.Value, value core.Value, check bool) core.Result {
-- 
2.43.0


From 50e3172c01d7d638118e124dcb08b808a80cf49a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:53 +0000
Subject: [PATCH 12/35] fix: validate remainder and option arguments of
 argument specifications

A second remainder separated by another argument was accepted and bound to
stale stack memory, a remainder as option argument crashed, and two
arguments could have the same name when one of them was an option.
---
 src/helena_dialect/arguments.go | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/helena_dialect/arguments.go b/src/helena_dialect/arguments.go
index 44d6ea5..d3a78ad 100644
--- a/src/helena_dialect/arguments.go
+++ b/src/helena_dialect/arguments.go
@@ -87,25 +87,27 @@ func buildArguments(specs core.Value) (core.Result, []Argument) {
 		if result2.Code != core.ResultCode_OK {
 			return result2, nil
 		}
+		if arg.Type == ArgumentType_REMAINDER && hasRemainder {
+			return core.ERROR("only one remainder argument is allowed"), nil
+		}
 		if lastOption != nil {
 			if lastOption.Type == OptionType_FLAG && arg.Type != ArgumentType_OPTIONAL {
 				return core.ERROR(
 					`argument for flag "` + OptionName(lastOption.Names) + `" must be optional`,
 				), nil
 			}
+			if arg.Type == ArgumentType_REMAINDER {
+				return core.ERROR(
+					`argument for option "` + OptionName(lastOption.Names) + `" cannot be a remainder`,
+				), nil
+			}
 			arg.Option = lastOption
-			args = append(args, arg)
 			lastOption = nil
-			continue
-		}
-
-		if arg.Type == ArgumentType_REMAINDER && hasRemainder {
-			return core.ERROR("only one remainder argument is allowed"), nil
 		}
 		if _, ok := argnames[arg.Name]; ok {
 			return core.ERROR(`duplicate argument "` + arg.Name + `"`), nil
 		}
-		hasRemainder = arg.Type == ArgumentType_REMAINDER
+		hasRemainder = hasRemainder || arg.Type == ArgumentType_REMAINDER
 		argnames[arg.Name] = struct{}{}
 		args = append(args, arg)
 	}
-- 
2.43.0


From 43c436e1da0bd05a017975e3c08bf5545c56e3ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:54 +0000
Subject: [PATCH 13/35] fix: reject empty argument names with a guard

An empty guard or argument name in a two-element argument specifier crashed
the interpreter.
---
 src/helena_dialect/arguments.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/helena_dialect/arguments.go b/src/helena_dialect/arguments.go
index d3a78ad..7c53321 100644
--- a/src/helena_dialect/arguments.go
+++ b/src/helena_dialect/arguments.go
@@ -226,12 +226,14 @@ func buildArgument(value core.Value) (core.Result, Argument) {
 						(nameOrDefault == "" || nameOrDefault == "?") {
 						return core.ERROR("empty argument name"), Argument{}
 					}
-					if result1.Code == core.ResultCode_OK && nameOrGuard[0] == '?' {
+					if len(nameOrGuard) > 0 && nameOrGuard[0] == '?' {
 						return core.OK(core.NIL), Argument{
 							Name:    nameOrGuard[1:],
 							Type:    ArgumentType_OPTIONAL,
 							Default: specs[1],
 						}
+					} else if nameOrDefault == "" || nameOrDefault == "?" {
+						return core.ERROR("empty argument name"), Argument{}
 					} else if nameOrDefault[0] == '?' {
 						return core.OK(core.NIL), Argument{
 							Name:  nameOrDefault[1:],
-- 
2.43.0


From b691c46e6e4d3a9c4a8f1f3f889a4b85755518ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:55 +0000
Subject: [PATCH 14/35] fix: report options given without a value

A trailing option without value crashed the interpreter with an index out
of range.
---
 src/helena_dialect/argspecs.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/helena_dialect/argspecs.go b/src/helena_dialect/argspecs.go
index ce9f0e3..0578eb6 100644
--- a/src/helena_dialect/argspecs.go
+++ b/src/helena_dialect/argspecs.go
@@ -318,6 +318,11 @@ func (argspec ArgspecValue) findSlots(
 				slots[optionSlot] = i
 				i++
 			case OptionType_OPTION:
+				if i+1 >= len(args) {
+					return core.ERROR(
+						`missing value for option "` + OptionName(arg.Option.Names) + `"`,
+					), findSlotsResult{}
+				}
 				switch arg.Type {
 				case ArgumentType_REQUIRED:
 					nbRequired -= 2
-- 
2.43.0


From 49bc0d1e72a5629e19d0fe3327492037dee6bb9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:39 +0000
Subject: [PATCH 15/35] fix: do not read past the end of truncated tagged
 strings and comments

A text ending right after the tag of a tagged string or a closing brace in
a block comment crashed the parser instead of being reported as incomplete.
---
 src/core/parser.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/core/parser.go b/src/core/parser.go
index 7a52698..d75740a 100644
--- a/src/core/parser.go
+++ b/src/core/parser.go
@@ -974,6 +974,9 @@ func (parser *Parser) closeTaggedString(literal string) bool {
 	if literal != node.tag {
 		return false
 	}
+	if parser.stream.End() {
+		return false
+	}
 	next := parser.stream.Current()
 	if next.Type != TokenType_STRING_DELIMITER {
 		return false
@@ -1071,6 +1074,9 @@ func (parser *Parser) openBlockComment(token Token, delimiter string, nested boo
 // Attempt to close the block comment parsing context, report whether the context was closed
 func (parser *Parser) closeBlockComment() bool {
 	node := parser.context.node.(*blockCommentNode)
+	if parser.stream.End() {
+		return false
+	}
 	token := parser.stream.Current()
 	if token.Type != TokenType_COMMENT {
 		return false
-- 
2.43.0


From 529cfca68a68428c411b8a7a8d45c25b92a3b45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:26 +0000
Subject: [PATCH 16/35] fix: report invalid words as errors when compiling
 scripts

Words such as {a}b or [a]{b} crashed the interpreter upon compilation, and
left modules containing them reserved for ever.
---
 src/helena_dialect/core.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/helena_dialect/core.go b/src/helena_dialect/core.go
index db7664a..f752c3f 100644
--- a/src/helena_dialect/core.go
+++ b/src/helena_dialect/core.go
@@ -304,9 +304,28 @@ func (scope *Scope) NewLocalScope(slots map[string]uint, values []core.Value) *S
 	return child
 }
 
-func (scope *Scope) Compile(script core.Script) *core.Program {
+func (scope *Scope) Compile(script core.Script) (program *core.Program) {
+	defer func() {
+		if r := recover(); r != nil {
+			err, ok := r.(core.SyntaxError)
+			if !ok {
+				panic(r)
+			}
+			// Report syntax errors upon execution
+			program = scope.CompileTupleValue(core.TUPLE([]core.Value{
+				core.NewCommandValue(syntaxErrorCmd{err}),
+			}))
+		}
+	}()
 	return scope.compiler.CompileScript(script)
 }
+
+type syntaxErrorCmd struct{ err core.SyntaxError }
+
+func (cmd syntaxErrorCmd) Execute(_ []core.Value, _ any) core.Result {
+	return core.ERROR(cmd.err.Error())
+}
+
 func (scope *Scope) Execute(program *core.Program, state *core.ProgramState) core.Result {
 	return scope.executor.Execute(program, state)
 }
-- 
2.43.0


From 4138874a0609e714b86b8786056a8e12c6b3f900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:51 +0000
Subject: [PATCH 17/35] fix: do not crash on errors in empty scripts when
 capturing positions

With positions captured, as in the interactive shell, a failure following an
empty body or test (e.g. "if {} {}") read the position before the first
opcode and crashed.
---
 src/helena_dialect/core.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/helena_dialect/core.go b/src/helena_dialect/core.go
index f752c3f..5c69750 100644
--- a/src/helena_dialect/core.go
+++ b/src/helena_dialect/core.go
@@ -164,7 +164,7 @@ func (process *Process) Run() core.Result {
 				errorStack := result.Data.(*core.ErrorStack)
 				var level core.ErrorStackLevel
 				var frame = append([]core.Value{}, context.state.LastFrame...)
-				if context.program.OpCodePositions != nil {
+				if context.program.OpCodePositions != nil && context.state.PC > 0 {
 					level = core.ErrorStackLevel{
 						Frame:    &frame,
 						Source:   context.program.Source,
-- 
2.43.0


From 2bfe53659fad07c488372cdc4b1b31bac60ddf23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:52 +0000
Subject: [PATCH 18/35] fix: do not share the error stack of a finished process

Waiting again on a failed coroutine returned the same error stack object,
to which every caller kept adding its levels.
---
 src/core/errors.go         |  5 +++++
 src/helena_dialect/core.go | 12 ++++++++++--
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/core/errors.go b/src/core/errors.go
index cfb5187..1d80ac0 100644
--- a/src/core/errors.go
+++ b/src/core/errors.go
@@ -40,6 +40,11 @@ func (errorStack *ErrorStack) Push(level ErrorStackLevel) {
 	errorStack.stack = append(errorStack.stack, level)
 }
 
+// Return a copy of the error stack
+func (errorStack *ErrorStack) Clone() *ErrorStack {
+	return &ErrorStack{append([]ErrorStackLevel{}, errorStack.stack...)}
+}
+
 // Clear the error stack
 func (errorStack *ErrorStack) Clear() {
 	errorStack.stack = errorStack.stack[:0]
diff --git a/src/helena_dialect/core.go b/src/helena_dialect/core.go
index 5c69750..5ac8216 100644
--- a/src/helena_dialect/core.go
+++ b/src/helena_dialect/core.go
@@ -122,7 +122,7 @@ func NewProcess(scope *Scope, program *core.Program, options *ProcessOptions) *P
 
 func (process *Process) Run() core.Result {
 	if process.stack.Depth() == 0 {
-		return process.lastResult
+		return copyErrorStack(process.lastResult)
 	}
 	context := process.stack.CurrentContext()
 	result := context.scope.Execute(context.program, context.state)
@@ -188,7 +188,7 @@ func (process *Process) Run() core.Result {
 		process.stack.Pop()
 		if process.stack.Depth() == 0 {
 			// Reached bottom of stack, stop there
-			process.lastResult = result
+			process.lastResult = copyErrorStack(result)
 			break
 		}
 
@@ -208,6 +208,14 @@ func (process *Process) Run() core.Result {
 	}
 	return result
 }
+
+// Error stacks grow as they are passed to callers
+func copyErrorStack(result core.Result) core.Result {
+	if errorStack, ok := result.Data.(*core.ErrorStack); ok {
+		result.Data = errorStack.Clone()
+	}
+	return result
+}
 func (process *Process) SetResult(result core.Result) {
 	context := process.stack.CurrentContext()
 	context.state.SetResult(result)
-- 
2.43.0


From 4a85fa02e43406ffb2f575e8f8d499cb3bdf7dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:53 +0000
Subject: [PATCH 19/35] fix: stop sorting when the comparator fails or yields

The comparator was still called after a failure, and a yielding comparator
suspended the calling script at a point where it could not be resumed.
---
 src/helena_dialect/lists.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/helena_dialect/lists.go b/src/helena_dialect/lists.go
index d5532af..c3a7fa5 100644
--- a/src/helena_dialect/lists.go
+++ b/src/helena_dialect/lists.go
@@ -273,9 +273,17 @@ func (listSortCmd) Execute(args []core.Value, context any) core.Result {
 	if comparator != nil {
 		// Sort by comparator result
 		slices.SortFunc(values2, func(a, b core.Value) int {
+			if result.Code != core.ResultCode_OK {
+				// Comparison already failed
+				return 0
+			}
 			program := scope.CompileArgs([]core.Value{comparator, a, b})
 			process := scope.PrepareProcess(program)
 			resultc := process.Run()
+			if resultc.Code == core.ResultCode_YIELD {
+				result = core.ERROR("unexpected yield")
+				return 0
+			}
 			if resultc.Code != core.ResultCode_OK {
 				result = resultc
 				return 0
-- 
2.43.0


From 6c086b717232874b87c1e0b6582180fbec3002e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:54 +0000
Subject: [PATCH 20/35] fix: wait for the next line after a continuation in the
 interactive shell

The check for a trailing line continuation looked at an array that is never
filled and without the newline, so that the incomplete line was evaluated.
---
 src/cli/cli.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/cli/cli.go b/src/cli/cli.go
index db60c81..6ecbdef 100644
--- a/src/cli/cli.go
+++ b/src/cli/cli.go
@@ -199,11 +199,10 @@ var lastResult = core.OK(core.NIL)
 
 func run(scope *helena_dialect.Scope, cmd string) (core.Value, error) {
 	input := core.NewStringStream(cmd)
-	tokens := []core.Token{}
-	output := core.NewArrayTokenStream(tokens, input.Source())
+	output := core.NewArrayTokenStream([]core.Token{}, input.Source())
 	(&core.Tokenizer{}).TokenizeStream(input, output)
-	if len(tokens) > 0 &&
-		tokens[len(tokens)-1].Type == core.TokenType_CONTINUATION {
+	tokens := core.Tokenizer{}.Tokenize(cmd + "\n")
+	if tokens[len(tokens)-1].Type == core.TokenType_CONTINUATION {
 		// Continuation, wait for next line
 		return nil, recoverableError{"continuation"}
 	}
-- 
2.43.0


From 837b74fd3f9833396aa2771c47eaedaeb8d994aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:54 +0000
Subject: [PATCH 21/35] fix: only carry successful results over to the next
 interactive command

An error or other result code of a command was set as the last result of
the next one, which failed again if it was empty or used ^ or |>.
---
 src/cli/cli.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cli/cli.go b/src/cli/cli.go
index 6ecbdef..df452e5 100644
--- a/src/cli/cli.go
+++ b/src/cli/cli.go
@@ -224,7 +224,9 @@ func run(scope *helena_dialect.Scope, cmd string) (core.Value, error) {
 	process := scope.PrepareProcess(program)
 	process.SetResult(lastResult)
 	result := process.Run()
-	lastResult = result
+	if result.Code == core.ResultCode_OK {
+		lastResult = result
+	}
 	if result.Code == core.ResultCode_ERROR {
 		printErrorStack(result.Data.(*core.ErrorStack))
 	}
-- 
2.43.0


From f921191fc1428f9a1e5f07c2e07bdfabbef9c9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:21 +0000
Subject: [PATCH 22/35] fix: comparing compound values as strings is an error,
 not a crash

---
 src/helena_dialect/strings.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/helena_dialect/strings.go b/src/helena_dialect/strings.go
index a21609b..b51c0cd 100644
--- a/src/helena_dialect/strings.go
+++ b/src/helena_dialect/strings.go
@@ -1,6 +1,9 @@
 package helena_dialect
 
-import "helena/core"
+import (
+	"helena/core"
+	"reflect"
+)
 
 type stringCommand struct {
 	scope    *Scope
@@ -260,7 +263,10 @@ func (cmd binaryCmd) Execute(args []core.Value, context any) core.Result {
 	if len(args) != 3 {
 		return STRING_OPERATOR_ARITY_ERROR(cmd.name)
 	}
-	if args[1] == args[2] {
+	// Compound values are not comparable
+	if reflect.ValueOf(args[1]).Comparable() &&
+		reflect.ValueOf(args[2]).Comparable() &&
+		args[1] == args[2] {
 		return core.OK(core.BOOL(cmd.whenEqual))
 	}
 	result1, operand1 := core.ValueToString(args[1])
-- 
2.43.0


From 534dbea124aee924522f882914a537c2b00fec74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:32 +0000
Subject: [PATCH 23/35] fix: do not report overwritten frames in error traces

---
 src/core/compiler.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/compiler.go b/src/core/compiler.go
index d7cad39..553cb5d 100644
--- a/src/core/compiler.go
+++ b/src/core/compiler.go
@@ -696,6 +696,8 @@ func (state *ProgramState) Empty() bool {
 // Push value on current frame
 func (state *ProgramState) Push(value Value) {
 	state.stack = append(state.stack, value)
+	// The last closed frame was on top of the stack and is now overwritten
+	state.LastFrame = nil
 }
 
 // Pop and return last value on current frame
-- 
2.43.0


From ec2925c239e7a75aef31fbb335e22c16a6ecf7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:08 +0000
Subject: [PATCH 24/35] fix: a substitution character before a closing
 delimiter is literal

Closing a tuple, block or expression right after $ left a stale
substitution in the word: ($) was rejected, and ($$) crashed the compiler.
---
 src/core/parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/parser.go b/src/core/parser.go
index d75740a..621c6cc 100644
--- a/src/core/parser.go
+++ b/src/core/parser.go
@@ -630,6 +630,7 @@ func (parser *Parser) openTuple(token Token) {
 
 // Close the tuple parsing context
 func (parser *Parser) closeTuple() {
+	parser.endSubstitution()
 	parser.popContext()
 }
 
@@ -669,6 +670,7 @@ func (parser *Parser) closeBlock() {
 		value += token.Literal
 	}
 	node.value = value
+	parser.endSubstitution()
 	parser.popContext()
 }
 
@@ -699,6 +701,7 @@ func (parser *Parser) openExpression(token Token) {
 
 // Close the expression parsing context
 func (parser *Parser) closeExpression() {
+	parser.endSubstitution()
 	parser.popContext()
 }
 
-- 
2.43.0


From 795000de597faaf5d2bf06c94a885fa90e142994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:57 +0000
Subject: [PATCH 25/35] fix: a script ending with a line comment may still be
 incomplete

An unterminated block, tuple or expression ending with a line comment was
accepted, and its contents taken for the whole script.
---
 src/core/parser.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/core/parser.go b/src/core/parser.go
index 621c6cc..d2ff61e 100644
--- a/src/core/parser.go
+++ b/src/core/parser.go
@@ -500,6 +500,10 @@ func (parser *Parser) Next() ParseResult {
 // This method is useful when testing for script completeness in interactive
 // mode and prompt for more input
 func (parser *Parser) CloseStream() ParseResult {
+	if _, ok := parser.context.node.(*lineCommentNode); ok {
+		// Line comments end with the script
+		parser.closeLineComment()
+	}
 	if parser.context.node != nil {
 		switch (parser.context.node).(type) {
 		case *tupleNode:
@@ -514,8 +518,6 @@ func (parser *Parser) CloseStream() ParseResult {
 			return PARSE_ERROR("unmatched here-string delimiter")
 		case *taggedStringNode:
 			return PARSE_ERROR("unmatched tagged string delimiter")
-		case *lineCommentNode:
-			parser.closeLineComment()
 		case *blockCommentNode:
 			return PARSE_ERROR("unmatched block comment delimiter")
 		default:
-- 
2.43.0


From 332bcd6ecb97f5c15292af3a3e629b8f4da3e926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:25 +0000
Subject: [PATCH 26/35] fix: catch rejects bodies and handlers that are not
 scripts

They crashed the interpreter.
---
 src/helena_dialect/controls.go | 34 +++++++++++++++++++++++++++-------
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/src/helena_dialect/controls.go b/src/helena_dialect/controls.go
index b55d2a7..dfe9103 100644
--- a/src/helena_dialect/controls.go
+++ b/src/helena_dialect/controls.go
@@ -654,8 +654,7 @@ func (cmd catchCmd) run(state *catchState, scope *Scope) core.Result {
 		case catchStateStep_beforeBody:
 			{
 				body := state.args[1]
-				// TODO check type
-				program := scope.CompileScriptValue(body.(core.ScriptValue)) // TODO check type
+				program := scope.CompileScriptValue(body.(core.ScriptValue))
 				state.bodyProcess = scope.PrepareProcess(program)
 				state.step = catchStateStep_inBody
 			}
@@ -693,14 +692,14 @@ func (cmd catchCmd) run(state *catchState, scope *Scope) core.Result {
 						)
 						program := subscope.CompileScriptValue(
 							handler.(core.ScriptValue),
-						) // TODO check type
+						)
 						state.process = subscope.PrepareProcess(program)
 					}
 				case core.ResultCode_BREAK,
 					core.ResultCode_CONTINUE:
 					{
 						handler := state.args[i+1]
-						program := scope.CompileScriptValue(handler.(core.ScriptValue)) // TODO check type
+						program := scope.CompileScriptValue(handler.(core.ScriptValue))
 						state.process = scope.PrepareProcess(program)
 					}
 				default:
@@ -735,7 +734,7 @@ func (cmd catchCmd) run(state *catchState, scope *Scope) core.Result {
 					return state.result
 				}
 				handler := state.args[i+1]
-				program := scope.CompileScriptValue(handler.(core.ScriptValue)) // TODO check type
+				program := scope.CompileScriptValue(handler.(core.ScriptValue))
 				state.process = scope.PrepareProcess(program)
 				state.step = catchStateStep_inFinally
 			}
@@ -810,7 +809,7 @@ func (catchCmd) findFinallyIndex(args []core.Value) int {
 	}
 	return i
 }
-func (catchCmd) checkArgs(args []core.Value) core.Result {
+func (cmd catchCmd) checkArgs(args []core.Value) core.Result {
 	i := 2
 	for i < len(args) {
 		result, keyword := core.ValueToString(args[i])
@@ -848,10 +847,31 @@ func (catchCmd) checkArgs(args []core.Value) core.Result {
 		}
 	}
 	if i == len(args) {
-		return core.OK(core.NIL)
+		return cmd.checkScripts(args)
 	}
 	return ARITY_ERROR(CATCH_SIGNATURE)
 }
+func (catchCmd) checkScripts(args []core.Value) core.Result {
+	if args[1].Type() != core.ValueType_SCRIPT {
+		return core.ERROR("body must be a script")
+	}
+	i := 2
+	for i < len(args) {
+		_, keyword := core.ValueToString(args[i])
+		switch keyword {
+		case "return",
+			"yield",
+			"error":
+			i += 3
+		default:
+			i += 2
+		}
+		if args[i-1].Type() != core.ValueType_SCRIPT {
+			return core.ERROR(`invalid ` + keyword + ` handler body`)
+		}
+	}
+	return core.OK(core.NIL)
+}
 
 const PASS_SIGNATURE = "pass"
 
-- 
2.43.0


From 4a803ca174ce57d324f2a78b6b64c09c40e31aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:44 +0000
Subject: [PATCH 27/35] fix: do not crash on list blocks with invalid words

A block with words that parse but do not compile, e.g. "list {[]{}$a}", used as a
list of values panicked instead of failing as other invalid lists do.
---
 src/helena_dialect/lists.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/helena_dialect/lists.go b/src/helena_dialect/lists.go
index c3a7fa5..4515999 100644
--- a/src/helena_dialect/lists.go
+++ b/src/helena_dialect/lists.go
@@ -435,7 +435,15 @@ func ValueToList(value core.Value) (core.Result, core.ListValue) {
 	return core.ListValueFromValue(value)
 }
 
-func ValueToArray(value core.Value) (core.Result, []core.Value) {
+func ValueToArray(value core.Value) (result core.Result, values []core.Value) {
+	defer func() {
+		if r := recover(); r != nil {
+			if _, ok := r.(core.SyntaxError); !ok {
+				panic(r)
+			}
+			result, values = core.ERROR("invalid list"), nil
+		}
+	}()
 	if value.Type() == core.ValueType_SCRIPT {
 		script := value.(core.ScriptValue)
 		if script.Cache.Values != nil {
-- 
2.43.0


From 177e2247d3cc1728bffdbfb17565567d4c431e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:47 +0000
Subject: [PATCH 28/35] fix: Picol == and != compare values of any kind instead
 of panicking on tuples and scripts

---
 src/picol_dialect/picol_dialect.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/picol_dialect/picol_dialect.go b/src/picol_dialect/picol_dialect.go
index 7b6c833..43e4cdd 100644
--- a/src/picol_dialect/picol_dialect.go
+++ b/src/picol_dialect/picol_dialect.go
@@ -186,11 +186,11 @@ func compareValuesCmd(
 
 var eqCmd = compareValuesCmd(
 	"==",
-	func(op1 core.Value, op2 core.Value) bool { return op1 == op2 || asString(op1) == asString(op2) },
+	func(op1 core.Value, op2 core.Value) bool { return asString(op1) == asString(op2) },
 )
 var neCmd = compareValuesCmd(
 	"!=",
-	func(op1 core.Value, op2 core.Value) bool { return op1 != op2 && asString(op1) != asString(op2) },
+	func(op1 core.Value, op2 core.Value) bool { return asString(op1) != asString(op2) },
 )
 
 func compareNumbersCmd(
-- 
2.43.0


From fe1b3001dcab372bee7819ab3c9367f158b8b532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:47 +0000
Subject: [PATCH 29/35] fix: Picol control commands and proc answer an error
 when a body is not a script

---
 src/picol_dialect/picol_dialect.go | 32 +++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/src/picol_dialect/picol_dialect.go b/src/picol_dialect/picol_dialect.go
index 43e4cdd..317e35b 100644
--- a/src/picol_dialect/picol_dialect.go
+++ b/src/picol_dialect/picol_dialect.go
@@ -66,6 +66,10 @@ func ARITY_ERROR(signature string) core.Result {
 	return core.ERROR(`wrong # args: should be "` + signature + `"`)
 }
 
+func INVALID_BODY_ERROR() core.Result {
+	return core.ERROR("body must be a script")
+}
+
 type simpleCommand struct {
 	fn func(args []core.Value, context any) core.Result
 }
@@ -301,12 +305,16 @@ var ifCmd = makeCommand(
 			return testResult
 		}
 		var script core.ScriptValue
+		var ok bool
 		if testResult.Value.(core.BooleanValue).Value {
-			script = args[2].(core.ScriptValue)
+			script, ok = args[2].(core.ScriptValue)
 		} else if len(args) == 3 {
 			return EMPTY
 		} else {
-			script = args[4].(core.ScriptValue)
+			script, ok = args[4].(core.ScriptValue)
+		}
+		if !ok {
+			return INVALID_BODY_ERROR()
 		}
 		result := scope.Evaluator.EvaluateScript(script.Script)
 		if result.Code != core.ResultCode_OK {
@@ -325,10 +333,13 @@ var forCmd = makeCommand(
 		if len(args) != 5 {
 			return ARITY_ERROR("for start test next command")
 		}
-		start := args[1].(core.ScriptValue)
+		start, startOk := args[1].(core.ScriptValue)
 		test := args[2]
-		next := args[3].(core.ScriptValue)
-		script := args[4].(core.ScriptValue)
+		next, nextOk := args[3].(core.ScriptValue)
+		script, scriptOk := args[4].(core.ScriptValue)
+		if !startOk || !nextOk || !scriptOk {
+			return INVALID_BODY_ERROR()
+		}
 		var result core.Result
 		result = scope.Evaluator.EvaluateScript(start.Script)
 		if result.Code != core.ResultCode_OK {
@@ -371,7 +382,10 @@ var whileCmd = makeCommand(
 			return ARITY_ERROR("while test script")
 		}
 		test := args[1]
-		script := args[2].(core.ScriptValue)
+		script, ok := args[2].(core.ScriptValue)
+		if !ok {
+			return INVALID_BODY_ERROR()
+		}
 		var result core.Result
 		for {
 			result = evaluateCondition(test, scope)
@@ -624,7 +638,11 @@ var procCmd = makeCommand(
 		if result.Code != core.ResultCode_OK {
 			return result
 		}
-		scope.Commands[asString(name)] = procCommand{argspecs, body.(core.ScriptValue)}
+		script, ok := body.(core.ScriptValue)
+		if !ok {
+			return INVALID_BODY_ERROR()
+		}
+		scope.Commands[asString(name)] = procCommand{argspecs, script}
 		return EMPTY
 	},
 )
-- 
2.43.0


From a5ea240d9c699fc78c4bdebdd1b6d1226191010a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:47 +0000
Subject: [PATCH 30/35] fix: Picol procedures called with too few arguments
 before args no longer panic

---
 src/picol_dialect/picol_dialect.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/picol_dialect/picol_dialect.go b/src/picol_dialect/picol_dialect.go
index 317e35b..afecbae 100644
--- a/src/picol_dialect/picol_dialect.go
+++ b/src/picol_dialect/picol_dialect.go
@@ -513,7 +513,11 @@ func (proc procCommand) Execute(args []core.Value, context any) core.Result {
 		argspec := proc.argspecs[p]
 		var value core.Value
 		if p == len(proc.argspecs)-1 && argspec.name == "args" {
-			value = core.TUPLE(append([]core.Value{}, args[a:]...))
+			remainder := []core.Value{}
+			if a < len(args) {
+				remainder = append(remainder, args[a:]...)
+			}
+			value = core.TUPLE(remainder)
 			a = len(args) - 1
 		} else if p < len(args)-1 {
 			value = args[a]
-- 
2.43.0


From 6f604e6119b7c6513365d3c58700a090c150ada1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:48 +0000
Subject: [PATCH 31/35] fix: evaluators answer an error for scripts and
 sentences with malformed words

---
 src/core/evaluator.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/core/evaluator.go b/src/core/evaluator.go
index eafcab4..97ec3f5 100644
--- a/src/core/evaluator.go
+++ b/src/core/evaluator.go
@@ -49,10 +49,22 @@ func NewCompilingEvaluator(
 	}
 }
 
+// Deferred function turning a syntax error into an error result
+func recoverSyntaxError(result *Result) {
+	if err := recover(); err != nil {
+		if e, ok := err.(SyntaxError); ok {
+			*result = ERROR(e.message)
+		} else {
+			panic(err)
+		}
+	}
+}
+
 // Evaluate a script and return result
 //
 // This will compile then execute the script
-func (evaluator *CompilingEvaluator) EvaluateScript(script Script) Result {
+func (evaluator *CompilingEvaluator) EvaluateScript(script Script) (result Result) {
+	defer recoverSyntaxError(&result)
 	program := evaluator.compiler.CompileScript(script)
 	return evaluator.executor.Execute(program, nil)
 }
@@ -60,7 +72,8 @@ func (evaluator *CompilingEvaluator) EvaluateScript(script Script) Result {
 // Evaluate a sentence and return result
 //
 // This will execute a single-sentence script
-func (evaluator *CompilingEvaluator) EvaluateSentence(sentence Sentence) Result {
+func (evaluator *CompilingEvaluator) EvaluateSentence(sentence Sentence) (result Result) {
+	defer recoverSyntaxError(&result)
 	script := Script{}
 	script.Sentences = append(script.Sentences, sentence)
 	program := evaluator.compiler.CompileScript(script)
-- 
2.43.0


From eedbff86bdb24a6b2d68aa135036ab0c90bada53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:50 +0000
Subject: [PATCH 32/35] fix: Picol while rejects extra arguments instead of
 ignoring them

---
 src/picol_dialect/picol_dialect.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/picol_dialect/picol_dialect.go b/src/picol_dialect/picol_dialect.go
index afecbae..0f46d4f 100644
--- a/src/picol_dialect/picol_dialect.go
+++ b/src/picol_dialect/picol_dialect.go
@@ -378,7 +378,7 @@ var forCmd = makeCommand(
 var whileCmd = makeCommand(
 	func(args []core.Value, context any) core.Result {
 		scope := context.(*PicolScope)
-		if len(args) != 3 && len(args) != 5 {
+		if len(args) != 3 {
 			return ARITY_ERROR("while test script")
 		}
 		test := args[1]
-- 
2.43.0


From bd40547b718741eba7235462df818240bf37c1d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:34 +0000
Subject: [PATCH 33/35] fix: slog Error logs the message without a leftover
 attribute

---
 src/native/go_slog/go_slog.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/native/go_slog/go_slog.go b/src/native/go_slog/go_slog.go
index 263251d..4bda15f 100644
--- a/src/native/go_slog/go_slog.go
+++ b/src/native/go_slog/go_slog.go
@@ -36,7 +36,7 @@ func (SlogCmd) Execute(args []core.Value, _ any) core.Result {
 			return core.ERROR(`wrong # args: should be "slog Error msg"`)
 		}
 		msg, _ := asString((args[2]))
-		slog.Error(msg, "toto", 1)
+		slog.Error(msg)
 	case "Info":
 		if len(args) < 3 {
 			return core.ERROR(`wrong # args: should be "slog Info msg"`)
-- 
2.43.0


From 9eb9659f23c985dff1a9274fae8141dffd04a491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:35 +0000
Subject: [PATCH 34/35] fix: slog answers errors for unknown methods and
 messages that are not strings

---
 src/native/go_slog/go_slog.go | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/native/go_slog/go_slog.go b/src/native/go_slog/go_slog.go
index 4bda15f..87f574d 100644
--- a/src/native/go_slog/go_slog.go
+++ b/src/native/go_slog/go_slog.go
@@ -29,26 +29,40 @@ func (SlogCmd) Execute(args []core.Value, _ any) core.Result {
 		if len(args) < 3 {
 			return core.ERROR(`wrong # args: should be "slog Debug msg"`)
 		}
-		msg, _ := asString((args[2]))
+		msg, ok := asString((args[2]))
+		if !ok {
+			return core.ERROR("invalid message")
+		}
 		slog.Debug(msg)
 	case "Error":
 		if len(args) < 3 {
 			return core.ERROR(`wrong # args: should be "slog Error msg"`)
 		}
-		msg, _ := asString((args[2]))
+		msg, ok := asString((args[2]))
+		if !ok {
+			return core.ERROR("invalid message")
+		}
 		slog.Error(msg)
 	case "Info":
 		if len(args) < 3 {
 			return core.ERROR(`wrong # args: should be "slog Info msg"`)
 		}
-		msg, _ := asString((args[2]))
+		msg, ok := asString((args[2]))
+		if !ok {
+			return core.ERROR("invalid message")
+		}
 		slog.Info(msg)
 	case "Warn":
 		if len(args) < 3 {
 			return core.ERROR(`wrong # args: should be "slog Warn msg"`)
 		}
-		msg, _ := asString((args[2]))
+		msg, ok := asString((args[2]))
+		if !ok {
+			return core.ERROR("invalid message")
+		}
 		slog.Warn(msg)
+	default:
+		return core.ERROR("unsupported method " + method)
 	}
 	return core.OK(core.NIL)
 }
-- 
2.43.0


From 68965e279383f6d8ceca637f93211e295f214333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:46 +0000
Subject: [PATCH 35/35] fix: comments in Picol argument lists are not taken for
 arguments

---
 src/picol_dialect/picol_dialect.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/picol_dialect/picol_dialect.go b/src/picol_dialect/picol_dialect.go
index 0f46d4f..ad3f439 100644
--- a/src/picol_dialect/picol_dialect.go
+++ b/src/picol_dialect/picol_dialect.go
@@ -554,6 +554,10 @@ func valueToArray(value core.Value) (core.Result, []core.Value) {
 			for _, sentence := range value.(core.ScriptValue).Script.Sentences {
 				for _, word := range sentence.Words {
 					if word.Value == nil {
+						if (core.SyntaxChecker{}).CheckWord(word.Word) == core.WordType_IGNORED {
+							// Comments are not values
+							continue
+						}
 						result := evaluator.EvaluateWord(word.Word)
 						if result.Code != core.ResultCode_OK {
 							return result, nil
-- 
2.43.0

