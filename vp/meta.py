"""Titles, statements and anchors of the properties; gen.py writes properties.jsonl and MANIFEST.json from this."""
META = {}
def P(pid, title, statement, over, text, why, files, mech, state=(), observe=(), hook=False, note=""):
    META[pid] = dict(title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, state=state, observe=observe, hook=hook, note=note)
P("P01", "Typed values hold exactly what was last stored in them",
  "A value handle returns, for every supported scalar, date-time, string and byte-array type, exactly the type and content last stored in it, whatever it held before, and typed reads of any other type are refused without touching the caller's output. A copy has the same type and content as its source and is independent of it afterwards, type-length-value transfer preserves a value and never writes outside it, NULL strings and byte arrays stay NULL, and releasing the last reference frees everything the value held.",
  ["inputs", "histories"], "every bit pattern of every scalar type, strings and byte arrays over all contents at lengths around 0 and the internal block size, every sequence of two or three stores of any types, every nesting of a property or object",
  "Tests store a handful of constants; a truncation, a stale union field or a leak shows only for particular bit patterns, previous contents and lengths.",
  ["src/rbus/rbus_value.c", "src/rbus/rbus_buffer.c", "include/rbus_value.h"],
  [("typed setters and getters", "src/rbus/rbus_value.c:DEFINE_VALUE_TYPE_FUNCS, rbusValue_SetString, rbusValue_SetBytes, rbusValue_SetTime"), ("copy", "src/rbus/rbus_value.c:rbusValue_Copy"), ("type-length-value access", "src/rbus/rbus_value.c:rbusValue_SetTLV"), ("release", "src/rbus/rbus_value.c:rbusValue_FreeInternal")],
  [("value content", "tagged union of scalar, buffer or reference", "src/rbus/rbus_value.c:struct _rbusValue")], ["public getters of the value API", "heap objects still allocated"],
  note="every path of the real setters, getters, copy and release within the stated lengths; strings longer than 66 bytes are outside")
P("P02", "Comparing values orders them by what they mean",
  "Comparing two values is antisymmetric and yields zero exactly when they mean the same: integers of any widths and signedness compare by mathematical value, floating point numbers by numeric value with NaN equal only to itself, strings and byte arrays byte by byte with the shorter one first, and date-times by the instant they denote including the zone offset. Values of different kinds, and a value and no value, are never equal.",
  ["inputs"], "every pair of values of the integral types, every pair of float and double bit patterns and 32-bit integers, all strings and byte arrays up to the bound, and date-times with any two adjacent fields or zone parts free",
  "Value-change notification, filters and duplicate detection all rest on comparison; an error confined to large magnitudes, sign mixes, shared prefixes or zone carries escapes example based tests.",
  ["src/rbus/rbus_value.c"], [("comparison", "src/rbus/rbus_value.c:rbusValue_Compare"), ("numeric coercion", "src/rbus/rbus_value.c:rbusValue_CoerceNumericToDouble")], (), ["result of the comparison in both argument orders"],
  note="64-bit integers against floating point are outside; date-times vary two fields at a time")
P("P03", "Encoded values decode to the same values, and bad bytes are refused",
  "Any sequence of values encoded into a buffer decodes, in order and consuming exactly the encoded bytes, to values of the same types and contents wherever the values fall relative to the buffer's internal blocks. Decoding arbitrary or truncated bytes either yields a value of an encodable type within the bytes present or is refused, and it never reads bytes that were not written, crashes or leaks; a buffer returns exactly the bytes written to it.",
  ["inputs"], "every sequence of two or three values of any types and contents, every start offset around the first and second buffer block, every byte sequence up to the bound as input to the decoder",
  "Boundary offsets and hostile byte patterns are an unbounded input space; tests encode one value at offset zero.",
  ["src/rbus/rbus_buffer.c", "src/rbus/rbus_value.c"], [("encoding", "src/rbus/rbus_value.c:rbusValue_Encode"), ("decoding", "src/rbus/rbus_value.c:rbusValue_Decode"), ("buffer", "src/rbus/rbus_buffer.c:rbusBuffer_Read, rbusBuffer_Write, rbusBuffer_Reserve")],
  [("read and write positions", "bounds of the bytes written", "src/rbus/rbus_buffer.h:struct _rbusBuffer")], ["decoded values", "read position"], note="up to 3 values per buffer, byte strings of up to 14 (thorough 60) bytes")
P("P04", "Text conversion of values is faithful, strict and bounded",
  "The text printed for a boolean, integer, character, string or date-time value is accepted back for the same type and restores the value, and bytes print as two hex digits each. Decimal or boolean text is accepted exactly when it denotes a value in the range of the requested type, refused text leaves the target unchanged, and printing into a caller's buffer never writes outside it, leaves as much of the text as fits, and terminates it (a string cut to fit fills the buffer without a terminator).",
  ["inputs"], "every 8 and 16-bit value, windows around zero, extremes, sign change and powers of ten for wider integers, every string over the digit and sign alphabet up to the bound plus free digits behind the extreme values, every buffer size up to 29 bytes",
  "Range limits, sign handling and short buffers have to hold for every text and size; tests try a few literals.",
  ["src/rbus/rbus_value.c"], [("printing", "src/rbus/rbus_value.c:rbusValue_ToString"), ("parsing", "src/rbus/rbus_value.c:rbusValue_SetFromString")], (), ["returned text, caller's buffer, resulting value"], note="floating point text and the byte type are outside; libc number parsing and printing are modelled and cross-checked by native replay")
P("P05", "Event filters mean what their expression says, also once stored",
  "A filter accepts a value exactly when its expression does: each relation compares the value with the filter's own by the ordering of their type, and AND, OR and NOT combine the answers, and evaluating it changes neither. Two filters compare equal exactly when they are the same expression; a filter written to a buffer and read back is equal and evaluates alike; damaged bytes are refused or yield a valid filter without crashing or leaking, and releasing the last reference frees all of it.",
  ["inputs"], "every expression tree up to the stated depth over all relations and connectives, with every operand and tested value of the type; every pair of such trees; every short byte sequence behind five beginnings of a stored filter",
  "The tests evaluate a few fixed filters; an error in one relation, one connective or one nested stored form needs the right tree and operands.",
  ["src/rbus/rbus_filter.c", "include/rbus_filter.h"], [("evaluation", "src/rbus/rbus_filter.c:rbusFilter_Apply"), ("comparison", "src/rbus/rbus_filter.c:rbusFilter_Compare"), ("stored form", "src/rbus/rbus_filter.c:rbusFilter_Encode, rbusFilter_Decode")], [("expression", "reference counted tree of relations and connectives", "src/rbus/rbus_filter.c:struct _rbusFilter")], ["result of applying the filter", "filter read back"], note="32-bit integers and strings of up to 2 bytes (thorough: also unsigned and 64-bit); trees of depth up to 1 over all operators and depth 2 over fewer")
P("P06", "Properties and objects hold exactly the elements put into them",
  "A property holds the name and value last given to it, and an object the list of properties given to it: setting a property whose name is present replaces that one, another name adds it, and lookups by name return the stored value of the right type or report that it is absent or of another type. Putting in again what is already held is harmless, comparison is zero exactly for the same names and values, and contents live exactly as long as the last reference to them.",
  ["inputs", "histories"], "every sequence of three (thorough four) operations on an object over three names with any values; every way of sharing values, properties and children; every pair of objects of up to two properties; typed accessors over all values",
  "Reference counting and list splicing errors need particular sequences (replace, re-insert, share) that unit tests do not enumerate.",
  ["src/rbus/rbus_property.c", "src/rbus/rbus_object.c"], [("object contents", "src/rbus/rbus_object.c:rbusObject_SetProperty, rbusObject_SetProperties, rbusObject_GetProperty"), ("property list", "src/rbus/rbus_property.c:rbusProperty_SetNext, rbusProperty_Append, rbusProperty_SetValue")], [("property list", "singly linked, each owning a reference to the next", "src/rbus/rbus_property.c:struct _rbusProperty")], ["getters of properties and objects", "heap objects still allocated"], note="up to 4 operations, three names, two children")
P("P08", "Message headers and fields decode to what was encoded; bad bytes are refused",
  "A message header decodes to the field values it was encoded from, and every damaged marker, excessive topic length or truncated header is refused without reading or writing outside the buffers. The fields of a message are read back in order, of the same types and contents and to the last one, a read of another type or past the end is an error that does not return data, and any byte sequence can be read as a message without touching memory beyond it.",
  ["inputs"], "all header field values and topic lengths, every header prefix, every sequence of two or three fields of every type with all contents and the lengths around encoding limits, every message of up to 4 (thorough 6) bytes with any typed read, including its meta section",
  "Every byte of a message comes from another process; whether a length field or a truncated field escapes the checks depends on exact values that samples miss.",
  ["src/rtmessage/rtMessageHeader.c", "src/rtmessage/rtEncoder.c", "src/core/rbuscore_message.c"], [("header", "src/rtmessage/rtMessageHeader.c:rtMessageHeader_Encode, rtMessageHeader_Decode"), ("fields", "src/core/rbuscore_message.c:rbusMessage_GetString, rbusMessage_GetBytes, rbusMessage_GetInt32"), ("meta section", "src/core/rbuscore_message.c:rbusMessage_BeginMetaSectionRead")], (), ["decoded header", "fields read from the message"], note="msgpack-c is replaced by a model of its packing and unpacking that native replay checks against the real library")
P("P18", "A set reaches the right provider unchanged, and several are all or nothing",
  "Setting a parameter hands its provider, once, exactly the value, type, session, commit flag and requester given, and returns the provider's answer; a read-only, unknown or pattern name or an empty value is refused without calling any handler, and a get then returns what was set. Setting several parameters of any providers succeeds exactly when every one was accepted; otherwise, also when a provider does not answer, every readable parameter has its earlier value again, no other parameter was touched, and the name reported is one that failed.",
  ["inputs", "fault_sequences"], "every value of every type, every provider error code, every pair and triple of parameters out of eight over two or three providers, every subset of them missing, read-only or refusing, and either request of a two-provider set lost",
  "Rollback across providers has a combination of failing position, provider and order for every list; tests try one failing parameter with one provider.",
  ["src/rbus/rbus.c", "src/core/rbuscore.c"], [("set", "src/rbus/rbus.c:rbus_set, _setInternal"), ("multiple set", "src/rbus/rbus.c:_setMultiInternal"), ("provider side", "src/rbus/rbus.c:_set_callback_handler"), ("grouping by provider", "src/core/rbuscore.c:rbus_discoverElementsObjects")], [("values before the set", "list of properties returned by each provider", "src/rbus/rbus.c:cachedProperties")], ["calls and arguments of set handlers", "result and failed name", "parameters after the call"], note="components share one process over a stand-in for the router connection; routes are resolved by the router's own tree; numbers in multiple sets are of one encoded length")
P("P19", "A get returns exactly the values asked for, from their providers",
  "Getting one parameter returns the value its provider holds or the provider's error; getting several succeeds exactly when every one could be read, and then returns each once under its name with the value its provider holds, in any order, otherwise an error and nothing. Getting a path that ends in a dot returns every parameter below it that could be read, once, from all its providers, leaving out those whose provider refuses, and fails when nobody provides the path; every provider is told who asks and nothing is leaked.",
  ["inputs", "fault_sequences"], "every value of every type, every provider error, every pair and triple out of nine names over three providers, every subset of parameters refusing, eight paths, and any one answer lost",
  "Grouping by provider, missing names and partial failures combine in more ways than the tests' fixed lists.",
  ["src/rbus/rbus.c", "src/core/rbuscore.c"], [("get", "src/rbus/rbus.c:rbus_get"), ("several and paths", "src/rbus/rbus.c:rbus_getExt, _getExt_response_parser"), ("provider side", "src/rbus/rbus.c:_get_callback_handler, get_recursive_wildcard_handler"), ("finding the providers", "src/core/rbuscore.c:rbus_discoverElementsObjects, rbus_discoverWildcardDestinations")], [("list of results", "properties of all answers so far", "src/rbus/rbus.c:retProperties")], ["returned list and count", "result", "calls of get handlers"], note="components share one process over a stand-in for the router connection; a path query whose later provider does not answer returns what the others provided, as documented in the code; wildcards in table rows belong to the table property")
P("P26", "Table rows exist for consumers exactly from being added to being removed",
  "Adding or removing a row asks the table's provider once, with the names given, and returns its answer; rows the provider registers or unregisters itself are treated alike. From then on, and only while the row exists, its number and alias are listed, its parameters and inner tables can be read and set under either name, and a query over all rows or over the table's path returns each existing row's parameters exactly once; names that are no table, no existing row, or stand for any row are refused without calling a handler.",
  ["inputs", "histories"], "every history of two (thorough three) additions, registrations, removals and unregistrations over three row numbers and two aliases with any refusal, on a table and on one inside its rows, for three orders of registering the elements, observed through listing, reading, setting and wildcard queries; 23 misuse names",
  "Instantiating, finding and dropping rows depends on the order of operations and on the names used; tests run a few fixed sequences.",
  ["src/rbus/rbus_element.c", "src/rbus/rbus.c"], [("rows as elements", "src/rbus/rbus_element.c:instantiateTableRow, deleteTableRow, insertElement"), ("lookup by number or alias", "src/rbus/rbus_element.c:retrieveInstanceElementEx"), ("requests", "src/rbus/rbus.c:_table_add_row_callback_handler, _table_remove_row_callback_handler, _get_parameter_names_handler"), ("wildcard queries", "src/rbus/rbus.c:get_recursive_wildcard_handler")], [("element tree", "registered elements with instances of their row templates", "src/rbus/rbus_element.h:elementNode")], ["listed row names", "values read", "calls of row handlers"], note="the provider hands out unique row numbers and aliases; tables whose provider answers whole-path queries itself, and synchronised tables, are outside")
P("P20", "A method call runs the named method once and returns its answer",
  "Invoking a method runs the method of exactly that name once with exactly the parameters given, and returns its result code and, on success, its results unchanged; a failed call carries an error code and its explanation, and names that are unknown, of a missing row or of a row template run nothing. Methods may answer later and in any order: each answer reaches the call it belongs to once, an asynchronous call's handler is called exactly once, a malformed request or answer never counts as success, and nothing is leaked.",
  ["inputs", "schedules", "fault_sequences"], "parameters and results of every type and value (up to 4 each), every result code, 42 method names, two (thorough three) pending calls answered in every order with every outcome, two asynchronous calls with every order of their threads and a thread that cannot start, every truncation of a request or an answer",
  "Which answer goes to which call depends on the order of answers and threads, and a damaged answer may come at any point; tests call a few methods with fixed parameters.",
  ["src/rbus/rbus.c", "src/core/rbuscore.c"], [("call", "src/rbus/rbus.c:rbusMethod_InvokeInternal, rbusMethod_Invoke"), ("asynchronous call", "src/rbus/rbus.c:rbusMethod_InvokeAsync, rbusMethod_InvokeAsyncThreadFunc"), ("provider side", "src/rbus/rbus.c:_method_callback_handler"), ("later answers", "src/rbus/rbus.c:rbusMethod_SendAsyncResponse, src/core/rbuscore.c:rbus_sendResponse")], [("pending answers", "request headers kept by the method", "src/rbus/rbus.c:rbusMethodAsyncHandle_t")], ["parameters received by the method", "result and results at the caller", "number of answers per call"], note="components share one process over a stand-in for the router connection; time-outs of a call belong to the connection property")
P("P21", "A published event reaches exactly those subscribed, once and unchanged",
  "Publishing an event delivers its name, type and data unchanged, once, to every subscription to it that was accepted and has not ended, in this process or another, and to nobody else; subscriptions differ by client, component, event, filter and timing, an equal one is refused, several at once are all made or none, and the initial value is delivered exactly when asked for and known. A change of a value reaches a filtered subscription only when its filter starts or stops to match, with that result, and leaves other subscribers' data alone. Subscriptions to table rows by number, by alias or for every row see exactly the rows they name and end only with that row or their client, and a table's subscriber is told of each row added or removed once.",
  ["inputs", "histories"], "histories of three (thorough four) subscriptions, unsubscriptions, row changes, client departures and publications over up to five subscriptions, with any refusal; every integer change against every comparison and its negation in any subscriber order; pairs (triples) of subscriptions made at once in every prior state",
  "Who is told depends on the order of subscriptions, endings and row changes, on filters and on who else is subscribed; tests use single subscribers with fixed values.",
  ["src/rbus/rbus.c", "src/rbus/rbus_subscriptions.c", "src/core/rbuscore.c"], [("publishing", "src/rbus/rbus.c:rbusEvent_Publish, rbusEvent_AddFilterResult"), ("subscription records", "src/rbus/rbus_subscriptions.c:rbusSubscriptions_addSubscription, rbusSubscriptions_onTableRowAdded, rbusSubscriptions_onTableRowRemoved"), ("requests to subscribe", "src/rbus/rbus.c:_subscribe_callback_handler, subscribeHandlerImpl"), ("consumer side", "src/rbus/rbus.c:rbusEvent_SubscribeWithRetries, rbusEvent_UnsubscribeEx, _master_event_callback_handler")], [("subscriptions", "the provider's list and each element's own", "src/rbus/rbus_subscriptions.h:rbusSubscription_t"), ("own subscriptions", "the consumer's list", "src/rbus/rbus.c:rbusEventSubscriptionInternal_t")], ["events received by handlers", "messages sent to other inboxes", "calls of the provider's subscribe handler"], note="components share one process over a stand-in for the router connection; direct connections and raw data are outside; row numbers 1 and 12")
P("P14", "A name leads to exactly the components registered for it",
  "Looking up a name in the router's tree yields the components registered for exactly that name, where a number or a quoted alias stands for any row of a registered table, and for a name that ends in a dot everyone registered below it; nobody else is found. Registering answers whether the name was added, was there already or is refused, and removing a name or a component takes away exactly its own names, so that whatever the order of registering and leaving a name behaves as if those gone had never been there. Names of any bytes, length and depth are handled without touching memory outside the tree.",
  ["inputs", "histories"], "every history of three (thorough four) registrations, removals and departures of three components with names of up to two parts of any bytes, changes of up to three parts to three larger trees, and then every lookup; every name of up to 5 (thorough 8) bytes, names around 512 bytes and 32 parts",
  "What a lookup returns depends on the whole history of the tree's nodes; tests register a few fixed names and never remove them in another order.",
  ["src/rtmessage/rtRoutingTree.c"], [("registering", "src/rtmessage/rtRoutingTree.c:rtRoutingTree_AddTopicRoute"), ("lookup", "src/rtmessage/rtRoutingTree.c:rtRoutingTree_GetTopicRoutes, rtRoutingTree_GetTopicRoutesAndEntries"), ("removal", "src/rtmessage/rtRoutingTree.c:rtRoutingTree_RemoveRoute, rtRoutingTree_RemoveTopic")], [("tree of name parts", "topics with the routes registered at and below them", "src/rtmessage/rtRoutingTree.h:rtTreeTopic")], ["routes returned for a name", "topics returned for a route", "heap objects still allocated"], note="three components; two parts in histories, three in changes of larger trees")
P("P12", "The router passes each message to exactly its receivers, whole and in order",
  "A message sent to a name reaches every client registered for that name once, with the header fields and payload it was sent with, and no other client, however its bytes are cut on their way and whatever other clients send in between; messages of one client stay in order. A request for a name without a receiver is answered to its sender as undeliverable, and any other such message vanishes. A subscription is answered with its true outcome, a client can end only its own registrations, all of them end when it leaves, and those who asked are told once of each client that comes or goes.",
  ["inputs", "histories", "schedules"], "every history of two or three (thorough four) subscriptions, repetitions, unsubscriptions and departures of three clients over names of up to two parts of any letters, then any message; two messages of any payload and header values cut at every position once or twice with another client's in between; messages of 960 to 1024 and of 65 to 69 thousand bytes",
  "Receivers depend on the history of registrations, and reassembly on where the stream is cut; tests run one registration history over a local socket that hardly ever cuts a message.",
  ["src/rtmessage/rtrouted.c", "src/rtmessage/rtRoutingTree.c", "src/rtmessage/rtMessageHeader.c"], [("reading", "src/rtmessage/rtrouted.c:rtConnectedClient_Read"), ("passing on", "src/rtmessage/rtrouted.c:rtRouter_DispatchMessageFromClient, rtRouted_ForwardMessage"), ("subscribing", "src/rtmessage/rtrouted.c:rtRouted_OnMessageSubscribe, rtRouted_AddRoute"), ("leaving", "src/rtmessage/rtrouted.c:rtConnectedClient_Destroy, rtRouted_ClearClientRoutes")], [("clients and their read state", "state machine with a growing buffer per client", "src/rtmessage/rtrouted.c:rtConnectedClient"), ("routes", "list of routes, one per subscription", "src/rtmessage/rtrouted.c:gRoutes")], ["messages written to each client's socket", "answers to subscriptions"], note="the router runs whole, main loop included, over a stand-in for the socket calls; messages are written to sockets without short writes")
P("P13", "Nothing one client sends harms the router or its other clients",
  "Whatever bytes a client sends and wherever it stops, the router keeps within its memory, stays up, and reads no message that is not there; the other clients go on being served as before. When the client leaves nothing of it is left, and doing all of it again takes no more memory than doing it once.",
  ["inputs", "histories"], "headers with any value in any field, any 46 (quick: names up to 2 bytes) bytes after a header's length, any payload of up to 2 (thorough 4) bytes and JSON with fields missing or of 25 values of any kind to every name of the router, every diagnostics command, addresses to listen at of up to 250 bytes, messages cut anywhere, names of any bytes and of 120 to 255 bytes",
  "A router serves every process of the device, so one malformed length is enough to stop all of them; no test sends the router anything malformed.",
  ["src/rtmessage/rtrouted.c", "src/rtmessage/rtMessageHeader.c", "src/rtmessage/rtSocket.c"], [("reading headers", "src/rtmessage/rtrouted.c:rtConnectedClient_Read; src/rtmessage/rtMessageHeader.c:rtMessageHeader_Decode"), ("the router's own names", "src/rtmessage/rtrouted.c:rtRouted_OnMessage*"), ("addresses", "src/rtmessage/rtSocket.c:rtSocketStorage_FromString")], [("clients and their read state", "state machine with a growing buffer per client", "src/rtmessage/rtrouted.c:rtConnectedClient"), ("routes", "list of routes", "src/rtmessage/rtrouted.c:gRoutes")], ["messages to the other clients", "answers to their subscriptions", "heap objects left", "descriptors closed"], note="one client misbehaves while two others register, send and answer")
P("P09", "What reaches a client reaches the listener it is for, whole and in order",
  "However the bytes of messages arrive, each message is handed once, unchanged and in order to the listener it is addressed to and to no other; messages wait while a listener runs, answers do not wait for listeners. Adding or removing a listener takes effect for the next message and is told to the router. Whatever bytes arrive, the client keeps within its memory and can be closed, and closing ends its threads and leaves nothing.",
  ["inputs", "schedules"], "two messages of any contents cut anywhere, 4 (thorough 5) additions, removals and messages, any value of every length, marker and flag of a header, any 12 (thorough 30) bytes, 24 and 30 messages waiting, 2 (thorough 3) preemptions of the client's threads",
  "Every event and every answer of the bus passes here; how a socket cuts the stream and how the two threads of a connection meet decides what arrives, and tests see one way of each.",
  ["src/rtmessage/rtConnection.c", "src/rtmessage/rtMessageHeader.c"], [("reading", "src/rtmessage/rtConnection.c:rtConnection_Read"), ("handing to listeners", "src/rtmessage/rtConnection.c:rtConnection_CallbackThread"), ("listeners", "src/rtmessage/rtConnection.c:rtConnection_AddListenerInternal; rtConnection_RemoveListener*")], [("listeners", "table of expression, id and callback", "src/rtmessage/rtConnection.c:listeners"), ("messages waiting", "list guarded by a mutex and condition", "src/rtmessage/rtConnection.c:callback_message_list")], ["calls of listeners", "messages to the router", "heap objects, threads, locks and descriptors left"], note="the socket is a stand-in which decides how much a read returns")
P("P10", "What a client sends is written whole, and a lost router is found again",
  "Every message sent is written to the connection once, whole, with the names, flags and payload given, and messages of several threads never mix, however much of a message the socket takes at a time. When the router goes away, the client connects again when it is back, registers every listener it still has, and both messages and requests pass again. A connection that cannot be made is reported and leaves nothing.",
  ["inputs", "schedules", "fault_sequences"], "messages of six kinds with any contents, the socket taking any part of one up to 2 (thorough 3) times, two threads with 1 (thorough 2) preemptions, names of up to 250 and payloads of up to 2700 bytes, the router gone before or at any operation and again at any of the first three messages, up to two refused connections, no socket, seven addresses",
  "Partly taken writes and a router that goes away while a client is connecting to it again do not happen in the tests; either mixes up or loses every later message.",
  ["src/rtmessage/rtConnection.c", "src/rtmessage/rtSocket.c"], [("sending", "src/rtmessage/rtConnection.c:rtConnection_SendInternal"), ("reconnecting", "src/rtmessage/rtConnection.c:rtConnection_ConnectAndRegister"), ("addresses", "src/rtmessage/rtSocket.c:rtSocketStorage_FromString")], [("socket", "descriptor of the current connection", "src/rtmessage/rtConnection.c:fd"), ("reconnecting", "whether a thread is reconnecting", "src/rtmessage/rtConnection.c:reconnect_in_progress")], ["bytes written to the socket", "registrations after reconnecting", "results of sending", "heap objects, threads and descriptors left"], note="a message being written when the router goes may be sent again or be reported as failed")
P("P11", "A request gets the first answer to it, or fails in time, and nothing else",
  "A request returns the first answer that carries its number, unchanged, and never the answer to another request, a late or repeated one or a stray one. It fails as undeliverable only if the router says so and as timed out only if no answer came before its time ran out. Afterwards nothing of it is left, whatever still arrives.",
  ["schedules", "inputs"], "two requests of two threads with any contents, up to 3 answers, repeated answers, undeliverable reports, stray answers or time-outs in any order, one preemption (one request: two), waits that end without cause",
  "The answer, the time-out and a second answer race for the same record; tests have one answer in good time.",
  ["src/rtmessage/rtConnection.c", "src/rtmessage/rtSemaphore.c"], [("requests", "src/rtmessage/rtConnection.c:rtConnection_SendRequestInternal"), ("matching answers", "src/rtmessage/rtConnection.c:rtConnection_Read"), ("waiting", "src/rtmessage/rtSemaphore.c:rtSemaphore_TimedWait")], [("pending requests", "list of number, semaphore and answer", "src/rtmessage/rtConnection.c:pending_requests_list")], ["results and answers of requests", "the request as the router sees it", "heap objects left"])
P("P22", "Subscribers of a property are told of each change, once and by whom",
  "While a property which its provider does not publish itself has a subscriber, each change of its value between two looks at it is told once to each subscriber, named outright or by a wildcard over rows, with the old value, the new one and the component that made the change; nothing is told without a change or to those who left. Looking goes on for every property that is subscribed, as rows and subscribers come and go and whatever getting a value answers, and for no other. Subscribing, unsubscribing, setting, publishing, losing a row or a subscriber and closing work at any moment of a look, and once nothing is subscribed no thread or memory is left.",
  ["histories", "schedules"], "two (thorough three) operations by three subscribers of two properties with any of 256 (thorough 29 thousand) values, reads that fail; two (thorough three) operations on two rows subscribed by name and by wildcard; ten events at any moment of a look with two (thorough three) preemptions",
  "The looks run in a thread of their own beside the calls of the application, and the tests' subscribers only come, wait and go.",
  ["src/rbus/rbus_valuechange.c", "src/rbus/rbus.c", "src/rbus/rbus_element.c"], [("looking", "src/rbus/rbus_valuechange.c:rbusValueChange_pollingThreadFunc"), ("properties to look at", "src/rbus/rbus_valuechange.c:rbusValueChange_AddPropertyNode, rbusValueChange_RemovePropertyNode, rbusValueChange_CloseHandle"), ("subscribing", "src/rbus/rbus.c:rbusEvent_Subscribe; src/rbus/rbus.c:subscribeHandlerImpl"), ("who changed it", "src/rbus/rbus_element.c:setPropertyChangeComponent")], [("properties looked at", "list of property and last value under a mutex", "src/rbus/rbus_valuechange.c:gVC")], ["calls of the subscribers' handlers", "calls of the provider's get handlers", "threads and heap objects left"], note="two polling periods per history; the polling period passes in model time")
P("P23", "An interval subscription is told the value at each interval until it ends",
  "A subscription with an interval is told the property's value of that moment, or those of all rows a wildcard covers, once at the end of each interval, beginning when it is accepted; with a duration it gets as many values as intervals fit in, and is then told once of its end and gone on both sides. It ends with its row, its process or when asked, other subscriptions go on undisturbed, a value that cannot be read is left out, and what could never be told is refused. Ending, beginning, leaving and closing work at any moment of telling, and no thread or memory is left.",
  ["histories", "schedules", "inputs"], "two to three (thorough one more) operations by three subscribers in this and another process or on two rows; intervals of 1 to 6 s and around 2^31 s, durations of up to three intervals and any rest; nine events at any moment of telling with one to three preemptions",
  "Each subscription has a thread of its own with its own clock, which the tests wait for a few seconds in one configuration.",
  ["src/rbus/rbus_intervalsubscription.c", "src/rbus/rbus.c", "src/rbus/rbus_subscriptions.c"], [("telling", "src/rbus/rbus_intervalsubscription.c:PublishingThreadFunc"), ("beginning and ending", "src/rbus/rbus_intervalsubscription.c:rbusInterval_AddSubscriptionRecord, rbusInterval_RemoveSubscriptionRecord; src/rbus/rbus.c:subscribeHandlerImpl"), ("end of the duration at the subscriber", "src/rbus/rbus.c:_master_event_callback_handler")], [("records", "vector of records, one thread each, under a mutex", "src/rbus/rbus_intervalsubscription.c:gRecord")], ["calls of the subscribers' handlers", "messages to the other process", "time of the model clock", "threads and heap objects left"], note="the clock passes only while everybody waits; threads whose waits end earlier run earlier")
P("P16", "Subscriptions survive the end of their provider",
  "When a provider closes and is started again, every subscription that was in effect and whose subscriber is still there is in effect again, once, with the same filter, interval and duration, as soon as its element or row, by number or alias, is registered again; no other subscription is, and none for subscribers that died or left while the provider was away or before the row came back. A restored subscription can be ended like any other, and survives again.",
  ["histories", "crash_points"], "one (thorough two) subscriptions, endings or departures of clients on top of five starting sets of six subscriptions, any filter value, interval and duration of 256, then the restart with dead clients, vanished components, elements registered at once or in two calls, a late row, a client leaving before it, and a second restart",
  "Tests restart a provider in one way with all its subscribers alive and all its rows there.",
  ["src/rbus/rbus_subscriptions.c", "src/rbus/rbus.c"], [("keeping", "src/rbus/rbus_subscriptions.c:rbusSubscriptions_saveCache"), ("loading", "src/rbus/rbus_subscriptions.c:rbusSubscriptions_loadCache"), ("restoring", "src/rbus/rbus_subscriptions.c:rbusSubscriptions_resubscribeElementCache, rbusSubscriptions_resubscribeRowElementCache")], [("kept subscriptions", "file of one record per subscription", "src/rbus/rbus_subscriptions.c:rbusSubscriptions_saveCache")], ["messages sent to the clients", "results of publishing and of ending subscriptions"], note="a process is alive or dead as the model of kill says")
P("P17", "A crash or a damaged file loses no other subscriptions",
  "If a provider crashes at any moment of making or ending a subscription, with any part of what it was writing written, then after its restart all other subscriptions are in effect as before. Whatever bytes the file of subscriptions holds, the provider starts, serves and can be subscribed to, and subscriptions kept before the damage are in effect, also after a further restart.",
  ["crash_points", "inputs"], "one (thorough two) operations over six subscriptions broken off after each change of a file, any prefix of a write; any byte (thorough two bytes) anywhere in a file of two subscriptions, a file of three cut anywhere, any file of 20 (thorough 40) bytes",
  "Tests never crash a provider within a write nor feed it a damaged file.",
  ["src/rbus/rbus_subscriptions.c", "src/rbus/rbus_filter.c"], [("saving", "src/rbus/rbus_subscriptions.c:rbusSubscriptions_saveCache"), ("loading", "src/rbus/rbus_subscriptions.c:rbusSubscriptions_loadCache"), ("filters", "src/rbus/rbus_filter.c:rbusFilter_Decode")], [("kept subscriptions", "file of one record per subscription", "src/rbus/rbus_subscriptions.c:rbusSubscriptions_loadCache")], ["messages sent to the clients", "results of subscribing and publishing"], note="a change of name of a file happens at once or not at all, and earlier writes are on disk by then (no model of a power failure)")

P("P31", "Discovery names exactly what is there, and who provides it",
  "Asked for the elements below a name down to a depth, for a table's rows, for the providers of names, for what a component provides or for the components there are, the bus lists exactly those which exist at that time, once each, as what they are. What does not exist has no elements, rows or providers, and a question nobody answers is reported as such. Asking changes nothing and leaves nothing behind.",
  ["histories", "inputs"], "two providers of nine elements with up to three rows in two tables, rows coming and going, every element asked for with every depth; at the router three clients, histories of two registrations, removals and departures with names of any letters, then any question",
  "The answer depends on the history of rows, registrations and departures and on the depth; tests ask a few fixed questions of a fixed tree.",
  ["src/rbus/rbus.c", "src/core/rbuscore.c", "src/rtmessage/rtrouted.c"], [("elements and rows", "src/rbus/rbus.c:_get_parameter_names_handler"), ("asking for elements", "src/rbus/rbus.c:rbusElementInfo_get"), ("asking the router", "src/core/rbuscore.c:rbus_discoverElementsObjects"), ("answers of the router", "src/rtmessage/rtrouted.c:rtRouted_OnMessageDiscoverElementObjects")], [("elements", "the provider's tree of elements and rows", "src/rbus/rbus_element.c:elementNode"), ("registrations", "the router's routes and topics", "src/rtmessage/rtrouted.c:gRoutes")], ["lists returned to who asks", "answers of the router as sent", "heap objects left"])
P("P07", "A component that closes takes along what is its own and nothing of others",
  "Once a component has closed, its elements, subscriptions and polling are gone, it is called no more and its handle is refused; opening it again, also while it is open, begins anew. Whatever the other components of the process have goes on unchanged: their elements answer, and their subscriptions to each other are told exactly what happens. When the last one has closed, or opening one was refused, nothing of it is left.",
  ["histories", "schedules"], "three components which provide a property, an event and a method each and subscribe to each other's in four patterns of up to nine subscriptions; any two of them (thorough: three) closing or opening again, all of it used and told after each step; one closing while another does one of ten things, with one preemption (thorough: two); refused connections and registrations; sixteen components",
  "What may be shared between components (polling thread, lists of handles, subscriptions, caches, the connection) shows only when several of them live in one process and go in a certain order; tests close everything at once.",
  ["src/rbus/rbus.c", "src/rbus/rbus_handle.c", "src/rbus/rbus_valuechange.c", "src/rbus/rbus_intervalsubscription.c", "src/rbus/rbus_subscriptions.c", "src/core/rbuscore.c"], [("opening and closing", "src/rbus/rbus.c:rbus_close"), ("handles", "src/rbus/rbus_handle.c:rbusHandleList_Remove"), ("polling", "src/rbus/rbus_valuechange.c:rbusValueChange_CloseHandle"), ("objects", "src/core/rbuscore.c:rbus_unregisterObj")], [("handles", "components of the process", "src/rbus/rbus_handle.c:gHandleList"), ("subscriptions", "the provider's subscriptions and the subscriber's", "src/rbus/rbus_subscriptions.c:rbusSubscriptions")], ["answers of get, set and invoke", "events delivered to each subscriber", "result of using a closed handle", "connections, files, threads and heap objects left"])
P("P30", "Nothing that is sent to a component harms it",
  "Whatever a component is sent by another or by the router, be it a request, an answer or an event with fields missing, of another kind or of other contents, or changed or cut anywhere, it reads and writes only its own memory, uses no more of it than the message warrants, and calls no handler without a name or value. A request is answered, with a result; a call whose answer makes no sense fails or returns well-formed values. Afterwards everything goes on working, and nothing of it is left behind.",
  ["inputs"], "requests of thirteen kinds with any one field missing with all after it, of another kind, or of some 20 other contents, any one byte of any value at 25 (thorough: every) positions, cut anywhere; answers to fourteen calls with any one byte of any value at the first 7 to 10 (thorough: all) positions, or cut anywhere; six counts of names by the router; events likewise",
  "What arrives is decided by other processes, of other versions or misbehaving; tests send only what the library itself makes.",
  ["src/rbus/rbus.c", "src/core/rbuscore.c", "src/rbus/rbus_message.c", "src/core/rbuscore_message.c", "src/rbus/rbus_tokenchain.c"], [("requests", "src/rbus/rbus.c:_callback_handler"), ("answers", "src/rbus/rbus.c:rbus_getExt; src/rbus/rbus.c:rbusTable_getRowNames; src/rbus/rbus.c:rbusElementInfo_get"), ("events", "src/core/rbuscore.c:master_event_callback"), ("discovery", "src/core/rbuscore.c:rbus_discoverWildcardDestinations")], [("elements", "the provider's tree of elements and rows", "src/rbus/rbus_element.c:elementNode"), ("subscriptions", "the provider's subscriptions", "src/rbus/rbus_subscriptions.c:rbusSubscriptions")], ["answers sent", "calls of handlers", "results and values returned by the calls", "answers of later gets, sets, calls and events", "heap use, and what is left after closing"])
P("P25", "There is at most one session, and everybody is told the same one",
  "A session begins only if there is none and ends only when named by its number; whoever asks is told the session there is, or none, and each beginning and end is told once to who subscribed. A call succeeds only if the manager of sessions said so. Malformed requests and answers are refused and leave the session, the manager and its clients as they were.",
  ["histories", "inputs"], "two (thorough three) operations by two clients of beginning, asking, ending, ending any other number and ending with five malformed parameters; answers of another manager with or without result and session of three kinds and any values",
  "The tests begin and end one session in order; numbers of others, malformed requests and strange answers do not occur.",
  ["src/session_manager/session_manager.c", "src/rbus/rbus.c"], [("manager", "src/session_manager/session_manager.c:sessionManager_methodHandler"), ("clients", "src/rbus/rbus.c:rbus_createSession; src/rbus/rbus.c:rbus_getCurrentSession; src/rbus/rbus.c:rbus_closeSession")], [("session", "number of the session there is, or 0", "src/session_manager/session_manager.c:g_current_session_id")], ["results of the calls", "events told", "heap objects left"])
P("P24", "An asynchronous subscription's outcome is told once, and then holds",
  "An asynchronous subscription is tried until there is a provider or its time is over; then its outcome, the provider's or that there was none, is told once to who began it, and events come exactly if it was made. One that is ended or whose component closes before is never made, and the provider is left with no subscription nobody has. All this holds whenever other threads begin, end or close, and nothing of it is left behind.",
  ["histories", "schedules"], "two operations over four subscriptions of two components (three over two; thorough three over four) of beginning with three times, ending, a provider appearing or refusing, time passing; components closing with any of four pending; ending, closing, beginning again or beginning another while a request or the callback is under way, with one (thorough two) preemptions at any lock, request or callback",
  "The tests subscribe asynchronously to an event which is there already; what happens when it is not, and when subscriptions end meanwhile, depends on times and schedules.",
  ["src/rbus/rbus_asyncsubscribe.c", "src/rbus/rbus.c"], [("retrying", "src/rbus/rbus_asyncsubscribe.c:AsyncSubscribeRetrier_threadFunc"), ("closing", "src/rbus/rbus_asyncsubscribe.c:rbusAsyncSubscribe_CloseHandle"), ("outcome", "src/rbus/rbus.c:_subscribe_async_callback_handler")], [("pending", "subscriptions not made yet", "src/rbus/rbus_asyncsubscribe.c:gRetrier")], ["results of the calls", "outcomes told", "events delivered", "what the provider's handler is told", "heap objects left"])
