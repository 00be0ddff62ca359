import json
P=[]
def p(id,title,statement,over,qt,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=state
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,"anchors":a})

p("P01","Integer field conversions are exact or fail with an overflow error",
 "Whenever an integer is converted between the signedness/width of a dependency's field and that of the federated field, the result is either mathematically equal to the original or the conversion fails with the overflow error; a value that fits the destination type always converts successfully. The generated gateway uses such a checked conversion for every pair of protobuf integer types in which some source value does not fit the destination.",
 ["inputs"],"for all integer values and for all pairs of protobuf integer kinds",
 "Tests sample a few boundary values and a few kind pairs; the guarantee is over all 2^64 values and all ordered pairs of integer kinds.",
 ["grpc/federation/cast.go","generator/code_generator.go","types/types.go"],
 [("checked conversions","grpc/federation/cast.go"),("selection of the checked conversion for a pair of kinds","generator/code_generator.go CastField.IsRequiredValidationNumber / CastWithValidationName"),("template dispatch","generator/templates/server.go.tmpl range .CastFields")])

p("P02","Variable definitions: condition, evaluation, binding and error propagation",
 "If a variable definition has a condition that evaluates to false, its value expression, message or validation is not evaluated and dependents see the zero value of its type; if the condition is absent or true, exactly one evaluation happens and dependents see exactly its result. The variable is published under its own name and declared type together with the value given to its setter, and an error of the condition, the evaluation or the setter makes the definition fail with that error. A failing validation fails with its own gRPC status, or with an Internal status when it has none.",
 ["inputs","configurations"],"for all conditions, all definition kinds, all callback outcomes and all prior variable environments",
 "Tests exercise a handful of generated services; the guarantee ranges over every combination of condition, kind, error outcome and prior scope.",
 ["grpc/federation/cel.go"],
 [("evaluation of one definition","grpc/federation/cel.go evalDef, IgnoreAndResponse, EvalDef"),("conditional block","grpc/federation/cel.go If"),("binding","grpc/federation/cel.go SetCELValue, LocalValue.setEvalValue/setEnvOptValue")])

p("P03","Repeated definitions are evaluated element-wise, in order, in their own scope",
 "A repeated definition over a source list yields, when no element fails, a list of the same length whose i-th element is the result of evaluating the body on the i-th source element, each source element being visited exactly once and in order; the first failing element stops the evaluation and its error is returned. The iterator variable is visible only to the body: the enclosing scope's variables and declarations are neither changed nor shared by the iteration.",
 ["inputs"],"for all source lists, all lengths and all bodies",
 "A test fixes a few lists; the claim is for every length and every position of a failing element and about absence of effects on the enclosing scope.",
 ["grpc/federation/cel.go"],
 [("element-wise evaluation","grpc/federation/cel.go evalMap, evalDefMap, EvalDefMap"),("iteration scope","grpc/federation/cel.go MapIteratorValue")])

p("P04","A named definition is evaluated at most once per message; its result is shared",
 "Within one message resolution, however many dependents ask for a named definition and in whatever order, its computation runs at most once, and every one of them receives the result and error of that single computation, including when that result is an error. Different names never share a result, and concurrent requests for different messages never share variables or declarations.",
 ["inputs","histories"],"for all sequences of requests, names and results",
 "The order and multiplicity of requests is unbounded; tests run a fixed dependency tree.",
 ["grpc/federation/cel.go"],
 [("memoisation","grpc/federation/cel.go LocalValue.do"),("scope creation","grpc/federation/cel.go NewLocalValue, NewServiceVariableLocalValue")])

p("P05","Calls are bounded by their timeout and panics become errors",
 "A method call with a timeout returns the call's own result and error if it finishes first, and otherwise a DeadlineExceeded status that names the method and the timeout, without ever leaving the worker blocked on delivering its late result. A panic in the call or in a concurrently evaluated definition never escapes: it is reported as an error carrying the panic message and the non-empty lines of the stack, and a definition that does not panic reports exactly its own error.",
 ["inputs","schedules"],"for all timeouts, results, panics and both completion orders",
 "Which of completion and expiry wins is schedule dependent, and the late-result path runs after the caller has returned.",
 ["grpc/federation/lib.go","grpc/federation/error.go"],
 [("timeout","grpc/federation/lib.go WithTimeout"),("panic containment","grpc/federation/error.go GoWithRecover, RecoverError")])

p("P06","Retry policies: when a call is retried, and the policy that is in force",
 "A call that succeeds is not repeated and its result is returned; a failed call is repeated only while the retry condition evaluates to true and the back-off policy allows another attempt, otherwise the error of the last attempt (or the condition's own evaluation error) is returned, and the condition is evaluated against the error of the attempt that just failed (when that is a gRPC status error). The policy in force is the configured one, with every unset field at its documented default, and a malformed interval is reported instead of ignored.",
 ["inputs","configurations","fault_sequences"],"for all failure sequences, all retry conditions and all combinations of set and unset policy fields",
 "Tests run one retry scenario; the number of attempts and the field combinations are unbounded.",
 ["grpc/federation/lib.go","resolver/resolver.go"],
 [("retry loop","grpc/federation/lib.go WithRetry"),("back-off construction","grpc/federation/lib.go NewConstantBackOff, NewExponentialBackOff"),("policy resolution","resolver/resolver.go resolveRetry, resolveRetryConstant, resolveRetryExponential")])

p("P07","A dependency's gRPC error is exposed completely to error handling expressions",
 "When a dependency fails with a gRPC status, the error variable seen by error-handling expressions has the status's code and message, carries every detail in order, and exposes each detail whose type is known to the process once, in order, in the list of its own type (error info, retry info, debug info, quota failure, precondition failure, bad request, request info, resource info, help, localized message) or, for any other type, in the custom-message list. An error wrapped with a log level keeps its message, its status and its identity for error inspection.",
 ["inputs"],"for all statuses and all sequences and types of details",
 "Detail lists are unbounded and there are eleven classes; tests use one or two.",
 ["grpc/federation/cel.go","grpc/federation/error.go"],
 [("error exposure","grpc/federation/cel.go SetGRPCError"),("log level wrapper","grpc/federation/error.go NewErrorWithLogAttrs, ErrorWithLogAttrs")])

p("P08","Validation error details are complete, ordered and correctly labelled",
 "The precondition-failure and bad-request details built for a failed validation contain, in definition order, exactly one entry for each violation whose expressions all evaluate, with each evaluated text in its own field; a violation that fails to evaluate is left out without affecting the others, and the detail is absent exactly when no entry remains. A localized message carries the given locale and the evaluated text, and is absent if its text fails to evaluate.",
 ["inputs"],"for all lists of violations and all patterns of evaluation failure",
 "The failure pattern space is exponential in the number of violations; tests use one or two patterns.",
 ["grpc/federation/validation.go"],
 [("details","grpc/federation/validation.go PreconditionFailure, BadRequest, LocalizedMessage, CustomMessage")])

p("P09","Expression evaluation: typed results, null and absent optionals, and locking",
 "Evaluating an expression returns its value converted to the requested type, and the zero value of the requested type when the expression yields null or an absent optional; compilation, evaluation and conversion errors are returned, never turned into values. A missing expression cache or cache index is reported as an error, a compiled expression is only reused for the cache index it was stored under, and the scope's lock is released on every exit.",
 ["inputs"],"for all expressions, result kinds, requested types and cache states",
 "Covers every exit of the evaluator and every cache history rather than the expressions of the examples.",
 ["grpc/federation/cel.go"],
 [("evaluation","grpc/federation/cel.go EvalCEL, createCELProgram"),("program cache","grpc/federation/cel.go CELCacheMap")])

p("P10","Comparisons with null are rewritten wherever they occur, and nothing else is",
 "In an expression every equality or inequality between null and a non-null operand, at any depth and in any position (operands, call targets and arguments, list elements, message fields, map keys and values, comprehension parts), has its non-null operand wrapped exactly once so that an unset message compares equal to null. All other parts of the expression are left unchanged, and every node added gets an identifier not used before.",
 ["inputs"],"for all expression trees",
 "Expression trees are unbounded in depth and shape; tests use a few shapes.",
 ["grpc/federation/cel.go"],
 [("rewriting","grpc/federation/cel.go comparingNullResolver"),("traversal","grpc/federation/cel.go exprVisitor")])

p("P11","CEL string and math functions behave like the Go functions they are named after",
 "Every function of the strings and math CEL packages, for all argument values of its declared types, returns what the Go standard library function of the same name returns for those arguments in that order, and reports an error exactly when the Go function does. Each is registered under its documented name with parameter and result types matching what its implementation consumes and produces.",
 ["inputs"],"for all argument values of every function and overload",
 "Each test checks one or two sample strings, which cannot distinguish e.g. Replace from ReplaceAll or prefix from suffix variants on other inputs.",
 ["grpc/federation/cel/strings.go","grpc/federation/cel/math.go","grpc/federation/cel/bind.go"],
 [("string functions","grpc/federation/cel/strings.go StringsLibrary.CompileOptions"),("math functions","grpc/federation/cel/math.go MathLibrary.CompileOptions"),("binding","grpc/federation/cel/bind.go OverloadFunc, MemberOverloadFunc")])

p("P12","CEL time functions behave like the Go time functions they are named after",
 "Every function and constant of the time CEL package, for all instants, locations, durations and other arguments, returns what the Go time operation of the same name returns, and reports an error exactly when the operation (or the decoding of a time or location argument) does. Converting a Go time to the CEL time value keeps the instant, the zone name and the zone offset, and converting back yields the same instant and offset.",
 ["inputs"],"for all instants, zones, durations and layouts",
 "Tests sample one instant in one or two zones per function.",
 ["grpc/federation/cel/time.go"],
 [("time functions","grpc/federation/cel/time.go TimeLibrary.CompileOptions"),("conversions","grpc/federation/cel/time.go toTimeValue, refToGoTimeValue, Time.GoTime, Location.GoLocation")])

p("P13","CEL url, uuid, rand, metadata and enum functions match their documentation",
 "Every function of the url, uuid, rand, metadata and enum CEL packages returns, for all arguments of its declared types, what the documented Go operation of the same name returns and reports an error exactly when that operation does. An enum selection carries the condition and both alternatives unchanged, nested selections included, and an enum's name, value and attribute accessors agree with the enum's declaration for every number and name.",
 ["inputs"],"for all argument values of every function and overload",
 "Tests use one URL, one seed or one enum value per function.",
 ["grpc/federation/cel/url.go","grpc/federation/cel/uuid.go","grpc/federation/cel/rand.go","grpc/federation/cel/metadata.go","grpc/federation/cel/enum.go","grpc/federation/cel.go"],
 [("functions","grpc/federation/cel/{url,uuid,rand,metadata,enum}.go CompileOptions"),("enum accessors","grpc/federation/cel.go EnumAccessorOptions, EnumAttrOption")])

p("P14","CEL list functions: sort, flatten, reduce and first",
 "Sorting a list in CEL returns the original elements, each exactly once, ordered ascending or descending by the given key, and the stable variants keep the original order of elements whose keys compare equal; the input list is not changed. Flatten removes exactly one level of nesting and keeps the order of the elements.",
 ["inputs"],"for all lists, keys and nestings",
 "Permutation, order and stability are claims over every list; samples of a few elements cannot show stability.",
 ["grpc/federation/cel/list.go"],
 [("sorting","grpc/federation/cel/list.go sortRefVal and its four variants"),("flatten","grpc/federation/cel/list.go flatten"),("macros","grpc/federation/cel/list.go makeReduce, makeFirst, makeSort")])

p("P15","Values cross the CEL plugin boundary unchanged; plugins are checked first",
 "Every value sent to or received from a CEL plugin (bool, integers, floating point, string, bytes, enum, message, and lists of them) arrives equal to the value that was sent and with the kind declared by the function's signature; an error reported by the plugin becomes an evaluation error. A plugin binary whose digest differs from the configured one, a plugin of another protocol version, or one lacking a declared function is rejected.",
 ["inputs"],"for all values of all supported types, list lengths, digests and function sets",
 "Tests call one plugin function; the claim ranges over all types and values, including extreme integers and empty lists.",
 ["grpc/federation/cel/plugin.go","grpc/federation/cel_plugin.go"],
 [("host side marshalling","grpc/federation/cel/plugin.go refToCELPluginValue, celPluginValueToRef"),("plugin side marshalling","grpc/federation/cel_plugin.go"),("admission","grpc/federation/cel/plugin.go NewCELPlugin, ValidatePlugin")])

p("P16","The variables an expression depends on are all found",
 "The set of variable names reported for an expression, argument list, call, message, enum, map or validation definition contains every name that its expressions refer to (conditions, values, request fields, retry conditions, error details and their nested definitions included) and contains no name that occurs nowhere in it; the names reported for a definition or an expression are distinct.",
 ["inputs"],"for all definitions and expression shapes",
 "Definitions nest arbitrarily; a dropped branch is only noticed when a test uses exactly that branch as the sole dependency.",
 ["resolver/def.go","resolver/value.go","grpc/federation/cel/conv.go"],
 [("reference names","resolver/def.go ReferenceNames of every expression kind"),("identifiers of an expression","grpc/federation/cel/conv.go ToIdentifiers, resolver/value.go CELValue.ReferenceNames")])

p("P17","Evaluation order respects dependencies and cyclic dependencies are rejected",
 "Every definition of a message is scheduled, each one only after all earlier definitions it refers to, and no definition placed after a validation is scheduled before that validation; definitions with no such relation may run concurrently. A set of messages whose definitions depend on one another in a cycle is rejected with an error, and an acyclic set is accepted.",
 ["inputs","configurations"],"for all definition lists and all message dependency graphs",
 "The space of graphs is unbounded; tests contain a dozen graphs and no graph in which every message is part of a cycle.",
 ["resolver/graph.go"],
 [("edges","resolver/graph.go setupVariableDependencyByReferenceName, setupVariableDependencyByValidation"),("schedule","resolver/graph.go VariableDefinitionGroups, createVariableDefinitionGroup"),("cycle detection","resolver/graph.go CreateAllMessageDependencyGraph, validateAllMessageGraph*, validateMessageGraph*")])

p("P18","Type compatibility decisions and the conversions they require",
 "A value may be bound to a field only if their types have the same repetition and kind, or both are numbers, or an enum is bound to a number, or null is bound to a list, message or bytes (a request additionally accepts a number for an enum); different messages and different enums only when one is declared as an alias of the other; all other combinations are reported. A conversion function is declared for every pair of types that are not identical and are reached from a bound value (list elements, map keys and values, alternatives of an enum selector, and message fields paired by their declared alias or else by name included), and for no pair of identical types, so that every conversion that a generated conversion calls is generated.",
 ["inputs"],"for all pairs of types",
 "Pairs of structured types are unbounded; tests cover the pairs used in the examples.",
 ["resolver/resolver.go","resolver/type_conversion.go","resolver/field.go"],
 [("compatibility","resolver/resolver.go isDifferentType, isExactlySameType"),("conversions","resolver/type_conversion.go typeConversionDecls, requiredTypeConversion"),("source types","resolver/field.go")])

p("P19","Enum conversions follow the declared aliases",
 "Converting an enum value from a dependency to the federated enum yields the federated value that declares the dependency's value as its alias (or has its name when no alias is declared), the declared default for every value without an alias, and 0 when there is no default; converting back is only accepted when the destination value is unique. Every alias lookup is restricted to the dependency enum being converted.",
 ["inputs","configurations"],"for all enums, alias declarations and default declarations",
 "Alias tables are arbitrary relations between two enums; tests use two or three.",
 ["generator/code_generator.go","resolver/enum.go"],
 [("conversion tables","generator/code_generator.go CastField.ToEnum, toEnumFromDepServiceToService, toEnumFromServiceToDepService"),("lookup","resolver/enum.go Enum.Value")])

p("P20","Names, kinds and fully qualified names are mapped consistently",
 "The fully qualified name of a message, enum, field, oneof, service or method is its package name, the names of its enclosing messages from the outermost inwards, and its own name, separated by dots, so that distinct declarations never get the same name. Scalar kinds convert to their protobuf type name and back without loss, are classified as signed, unsigned or floating point as protobuf defines, and a fully qualified method name or Go package option splits into exactly its parts or is rejected.",
 ["inputs"],"for all declarations, nestings and names",
 "Nesting depth and names are unbounded.",
 ["resolver/fqdn.go","types/types.go","resolver/resolver.go","util/name.go"],
 [("FQDN","resolver/fqdn.go"),("kinds","types/types.go"),("splitting","resolver/resolver.go splitGoPackageName, splitMethodFullName")])

# broad guarantees that this family does not decide here
p("P30","Generated servers implement the federation schema end to end",
 "For every valid schema the generated server compiles and, for every request, returns the response obtained by evaluating the declared definitions, calls and bindings, or the error declared for the failing step.",
 ["inputs","configurations"],"for all schemas and requests",
 "Schemas are programs; the examples are twenty of them.",
 ["generator/templates/server.go.tmpl","generator/code_generator.go"],
 [("template","generator/templates/server.go.tmpl")])
p("P31","No data race and no deadlock in concurrently evaluated definitions",
 "However the concurrently evaluated definitions of a message interleave, shared variables are never accessed without synchronisation and evaluation never deadlocks.",
 ["schedules"],"for all interleavings",
 "A test observes one interleaving per run.",
 ["grpc/federation/cel.go","generator/templates/server.go.tmpl"],
 [("locks","grpc/federation/cel.go LocalValue")])
p("P32","Schema diagnostics point at the declaration that caused them",
 "Every error, definition jump and completion reported for a schema file refers to the exact source range of the construct concerned.",
 ["inputs"],"for all schema files and positions",
 "Positions are sampled by tests on a few files.",
 ["source/","lsp/","validator/"],
 [("locations","source/file.go, source/location_builder.go")])
p("P33","A CEL plugin affects the gateway only through its results",
 "A CEL plugin that crashes, loops, exhausts memory or writes malformed output makes only the expressions that call it fail; the gateway and later requests are unaffected.",
 ["fault_sequences"],"for all plugin behaviours",
 "Plugin misbehaviour is unbounded.",
 ["grpc/federation/cel/plugin.go"],
 [("isolation","grpc/federation/cel/plugin.go CELPluginInstance")])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
