import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    import re
    ss=re.split(r'(?<=[a-z0-9)\'`])\. (?=[A-Z])',statement.rstrip('.'))
    if len(ss)>3: ss=ss[:2]+['; '.join([ss[2]]+[x if x.startswith('BrowserError') or re.match(r'[A-Z][A-Z]',x) else x[0].lower()+x[1:] for x in ss[3:]])]
    statement='. '.join(ss)+'.'
    if len(title)>80: print('LONG',id,len(title),title)
    assert 1,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
ST="libraries/states/src/"
p("C01","Every state change reaches every subscriber exactly once, with (new, previous)",
 "After any sequence of operations, each change of a state or store (direct set, updater, reset; also one made from inside a subscriber or an updater) is visible through get() before any subscriber runs and is delivered exactly once, in subscription order, to every handler subscribed at that time, as (new value, value it replaced). A write that leaves the value identical (Object.is, including NaN, or an updater that changes nothing) notifies nobody. Falsy values, undefined, null and NaN are ordinary values; a function-valued state stores functions as they are.",
 ["histories","inputs"],"every sequence of set/update/reset/subscribe operations, every kind of value, and subscribers that set the state again",
 "The tests set one or two values on one subscriber; they never check previous values over a history, repeated identical writes through updaters, several subscribers, or nested sets.",
 [ST+"state.ts",ST+"store.ts"],[("Object.is comparison before committing",ST+"state.ts"),("handler list walked on every commit",ST+"state.ts"),("internal first handler keeps get() current",ST+"store.ts")],
 [("value","current frozen value",ST+"state.ts"),("handlers","ordered subscribers",ST+"state.ts")],["createState()/createStore() set, get, onChange, reset"])
p("C02","An unsubscribe function ends exactly its own subscription, whenever it is called",
 "Calling the function returned by a successful onChange() stops deliveries to that handler and to no other, and get() stays current. This holds when it is called twice, after the handler was subscribed again, or from inside a notification (its own or another subscriber's): no other subscriber misses or repeats a delivery, a handler removed during a notification is not called afterwards, and one added during a notification is first called for the next change. Subscribing an already subscribed handler adds no second delivery, and the function returned for the duplicate has no effect.",
 ["histories","schedules"],"every order of subscribe, unsubscribe, repeated unsubscribe and change, including from inside subscribers",
 "One test unsubscribes one handler once, outside a notification; repeated, stale and re-entrant unsubscription orders are unbounded.",
 [ST+"state.ts",ST+"store.ts"],[("handler removal by the returned function",ST+"state.ts"),("duplicate handler check",ST+"state.ts")],
 [("handlers","ordered subscribers",ST+"state.ts")],["onChange() and the function it returns"])
p("C03","Updaters: returned value, in-place change, nothing and throw have their effect",
 "A synchronous updater receives the current value; the value it returns becomes the state, changes it makes to the draft become the state when it returns nothing, and returning the `nothing` symbol clears the state to undefined. set() returns the resulting value. An updater that throws (even after changing the draft) propagates the error, leaves the state exactly as it was and notifies nobody.",
 ["inputs","histories"],"every updater outcome from every reachable state, for objects, arrays, primitives and undefined",
 "Tests call each form once from one start value; combinations (after nothing, after a throw, on undefined, on a value that was itself produced by an updater) are not sampled.",
 [ST+"state.ts"],[("immer produce around the updater",ST+"state.ts")],None,["set(updater)"])
p("C04","Asynchronous updaters commit exactly once, when they settle, or not at all",
 "Starting an asynchronous updater changes nothing until its promise settles. When it resolves, the state becomes the resolved value (null included), undefined for `nothing`, or the in-place result when it resolves to undefined; subscribers are told once, with the value being replaced at that moment, and the promise returned by set() resolves to the new value. When it rejects, the state and subscribers are untouched and the returned promise rejects with the same reason. This holds for any number of overlapping asynchronous and synchronous updates settling in any order.",
 ["schedules","histories"],"every interleaving of starting and settling asynchronous updates with synchronous sets and resets",
 "Each test awaits a single asynchronous update; no test overlaps two, lets a set intervene, or resolves null or nothing and then writes again.",
 [ST+"state.ts"],[("promise branch of set",ST+"state.ts")],[("value","current value at settle time",ST+"state.ts")],["set(async updater), get, onChange"])
p("C05","Values read from a state are immutable snapshots; reset restores the initial",
 "A value obtained from get(), from a subscriber or from an updater's result never changes afterwards, whatever is later done to the state, and is frozen: writing to one of its own properties fails and does not alter the state. A draft kept after its updater returned cannot alter the state. reset() restores the initial value (and notifies only if that is a change) from any state.",
 ["histories","inputs"],"every history of updates between obtaining a snapshot and looking at it again",
 "Tests compare values right after a set; none keeps old snapshots across later in-place updates, adders or resets.",
 [ST+"state.ts",ST+"store.ts",ST+"registry.ts"],[("Object.freeze and immer structural sharing",ST+"state.ts")],None,["get(), onChange arguments, reset()"])
p("C06","Registry queries agree with its content for every key",
 "At every moment keys(), values(), size(), has() and get() of a registry, and of its readonly view, describe the same content: keys() lists every own string key and then every symbol key, values() is in the same order, size() counts them, and has(k) holds exactly for entries whose value is not undefined. Only entries that were put there count, whatever the key is called (constructor, toString, __proto__, symbols), and falsy values are entries like any other.",
 ["inputs","histories"],"every sequence of adds, replacements, deletions and resets, over arbitrary string and symbol keys",
 "Tests use two or three ordinary keys; names inherited from Object.prototype, undefined entries and symbol keys after deletions are not covered.",
 [ST+"registry.ts"],[("keys/has/size/values computed from the store",ST+"registry.ts")],None,["createRegistry() query methods"])
p("C07","Adders are atomic and ordered; readonly views stay live but cannot write",
 "add(e1, …, en) hands the entries in order to the adder's handler and makes one change: subscribers are told once with all entries applied, not at all if nothing changed, and if the handler throws none of the entries is applied. push appends and unshift prepends each entry in turn. A readonly store or registry exposes no way to write, always shows the current content of the store it came from, and notifies of all its changes.",
 ["histories","inputs","fault_sequences"],"every batch of entries, including empty, duplicate and failing ones, from every state",
 "Tests add one or two entries and inspect the result; atomicity under a failing handler and notification counts per batch are not asserted.",
 [ST+"adder.ts",ST+"store.ts",ST+"registry.ts"],[("one set() around the whole batch",ST+"adder.ts"),("pick of read members",ST+"store.ts")],None,["withAdder().add, adder(), toReadonlyStore(), toReadonlyRegistry()"])
CM="plugins/commands/src/"
p("C08","Invoking a command runs its latest handler once, or reports an unknown command",
 "invoke(id, ...args) calls exactly the handler most recently registered (or given in options) for that id in that app, once, with exactly those arguments, and returns or throws what it does. For an id without handler, including names such as constructor or __proto__, it calls nothing, throws nothing and logs an error. keys() and has() list exactly the ids with a handler, and registering one id never affects another.",
 ["histories","inputs"],"every sequence of register and invoke over arbitrary ids, arguments and handler results",
 "Tests register one or two plain ids; they do not cover re-registration histories across ids, thrown or returned values with arguments, or inherited property names.",
 [CM+"handlers.ts",CM+"commands_gizmo.ts"],[("handler registry lookup",CM+"handlers.ts")],[("registry","id to handler",CM+"handlers.ts")],["app.commands.handlers"])
p("C09","Contributions: the first registration of an id wins, duplicates are reported",
 "Adding a contribution whose id is not present records exactly that contribution; adding one whose id is present changes nothing, notifies nobody and logs (an error for a command, a warning for a key binding), also when both are in the same add() call. Contributions of distinct ids, whatever they are called, never affect each other, and entries removed can be added again.",
 ["histories","inputs"],"every sequence of single and batched additions over arbitrary ids, and options given at creation",
 "Tests add a single duplicate; batches mixing new and duplicate entries, and unusual ids, are not covered.",
 [CM+"contributions.ts","plugins/keyboard/src/keyBindings.ts"],[("duplicate check inside the adder",CM+"contributions.ts"),("duplicate check inside the adder","plugins/keyboard/src/keyBindings.ts")],None,["commands.contributions.add, keyboard.keyBindingContributions.add"])
p("C10","A command object dispatches through the app it was last connected to",
 "Before connect() a command function runs its own handler (given at creation or by defineHandler) and otherwise calls nothing, throws nothing, returns undefined and logs one error; after connect(app, handler?) it invokes its id in the last connected app, so a handler registered there later takes over. connect() with a known handler registers it, adds the contribution when the command was declared with an info object, and adds a key binding when the app has a keyboard and the info has key or mac; a command declared by a plain id adds neither. The function carries its id as name and id, and a formatted command has its own title, or else the sentence-cased part of the id after the first dot (the whole id when it has none).",
 ["histories","configurations"],"every order of call, defineHandler and connect over several commands and apps, with and without keyboard, and every shape of id",
 "Tests exercise each form once with one app; reconnecting, handler replacement, several apps and ids without a dot are not covered.",
 [CM+"command.ts",CM+"formatCommand.ts"],[("ctx/h captured by the command closure",CM+"command.ts"),("title generation",CM+"formatCommand.ts")],None,["command(), Command.connect, defineHandler, formatCommand"])
p("C11","A key press runs exactly the command the key binding registry assigns to it",
 "While browser keyboard support is running, pressing a key invokes exactly once, without arguments, the command of the first contribution (in registry order) whose effective key it is (mac if given on macOS, else key; the spellings of one combination - cmd+ and command+, another order of modifiers, an alias - being the same key), prevents the default action, and invokes nothing else; a key no contribution claims invokes nothing and keeps its default action. This follows every change of the registry: added, removed, replaced and reset contributions take effect from the next key press, and a contribution hidden by a duplicate key is reported by a warning and takes over when the first is removed.",
 ["histories","configurations","inputs"],"every history of registry changes and key presses, on macOS and elsewhere",
 "Tests trigger one binding directly through the key library; no test presses real keys, removes bindings, or checks keys after several registry changes or on macOS.",
 ["plugins/browser-keyboard/src/keyBindings.ts","plugins/browser-keyboard/src/browser_keyboard_gizmo.ts","plugins/keyboard/src/keyBindings.ts","plugins/os/src/os.ts"],[("rebinding on registry change","plugins/browser-keyboard/src/keyBindings.ts"),("platform key choice","plugins/keyboard/src/keyBindings.ts")],None,["keydown/keypress events on document; command handlers; preventDefault"])
p("C12","Routes: navigation runs the registered handler; registrations are owned",
 "navigate(r) calls exactly the handler registered for r, once, and navigate() without argument uses the configured initial route ('/' by default, per app); a route that is not registered, including names such as constructor, calls nothing and logs an error. Registering a taken route changes nothing and logs an error, and the function it returns does nothing. The function returned by a successful register() removes that registration only: called again, or after the route was cleared or registered by someone else, it removes nothing; clearRoutes() removes all routes and keeps the configuration.",
 ["histories","inputs"],"every sequence of register, unregister (repeated and stale), clear, config and navigate over arbitrary route names and several apps",
 "Tests register one route and unregister it once; stale unregister functions, configuration histories and unusual names are not covered.",
 ["plugins/routes/src/routes_gizmo.ts"],[("routes record in a store","plugins/routes/src/routes_gizmo.ts")],[("store","config and routes","plugins/routes/src/routes_gizmo.ts")],["app.routes"])
PR="plugins/preferences/src/"
p("C13","Preferences: get returns the last value set, else the given default",
 "get(key, default) returns the value last set for that key in that app, or default when it was never set, was removed, or was cleared; reading never stores the default. set accepts a value or an updater, which receives the current value (undefined when absent); undefined or `nothing`, given directly or returned, removes the preference. Keys, whatever they are called, do not affect each other, an updater that throws changes nothing and the error reaches the caller, clearAll() removes everything, and an asynchronous updater takes effect when it settles and its promise completes after that (rejecting if it rejects).",
 ["histories","schedules","inputs"],"every sequence of get/set/update/clear over arbitrary keys, with overlapping asynchronous updates, for the in-memory and browser implementations",
 "Tests set a key once and read it; removal through updaters, overlapping asynchronous updates, failing updaters and clearing between them are not covered.",
 [PR+"memory_preferences_gizmo.ts",PR+"preferences.ts","plugins/browser-preferences/src/browser_preferences_gizmo.ts"],[("storage record and update handler",PR+"memory_preferences_gizmo.ts"),("localStorage read and write","plugins/browser-preferences/src/browser_preferences_gizmo.ts")],None,["app.preferences.get/set/clearAll"])
p("C14","A preference store is a typed view of one preference key",
 "createStore(key, default).get() returns, as a JSON value, what was last set through any store of that key, or the default when the preference is absent. Its set() accepts a value, or an updater that receives the current value (or a copy of the default) and may return a new value, change it in place, or return `nothing` to remove it, synchronously or asynchronously; the result is persisted and visible to every store of that key. The default object itself is never modified, undefined removes the preference, and null, false, 0 and '' are stored values.",
 ["histories","schedules","inputs"],"every sequence of operations over several stores of the same and different keys, with and without defaults, on both implementations",
 "Tests run one set per store; in-place updates are asserted only by mutating the default object, and interplay between stores of one key is not covered.",
 [PR+"preferences_gizmo.ts"],[("JSON transform around preferences.set",PR+"preferences_gizmo.ts")],None,["app.preferences.createStore"])
p("C15","Browser preferences persist per app name and touch nothing else in localStorage",
 "A preference set through the browser implementation survives a page reload and is read back exactly, for any key and any text (unicode and empty included), by any later app of the same name. Each app name has its own preferences: set and clearAll of one app never change those of another app name (also when one name is a prefix of the other) or entries written by other code. The stored text is encoded, not the plain value, and a failing write leaves the previous value in place and the error reaches the caller.",
 ["histories","crash_points","inputs","fault_sequences"],"every history of sets, clears, reloads, foreign writes and failing writes over several app names",
 "Tests use one app and a few keys; reloads, name prefixes, foreign entries and quota failures over a history are not covered.",
 ["plugins/browser-preferences/src/browser_preferences_gizmo.ts"],[("key prefixing and encoding","plugins/browser-preferences/src/browser_preferences_gizmo.ts")],None,["localStorage content; app.preferences"])
p("C16","Apps on the same page do not interfere with each other",
 "Whatever order several apps are created and used in, also at the same time, an app's own preferences, commands, contributions, language, routes, errors, log and command palette operations act on that app only. Registering, setting, clearing or invoking through one app never changes what another app with a different name returns, runs, persists or logs.",
 ["histories","configurations"],"every interleaving of operations of two or more apps built from the same plugins on one page",
 "Every test creates a single app; the plugins keep page-wide command objects, which only matter with a second app.",
 [PR+"preferences_gizmo.ts",CM+"commands_gizmo.ts",CM+"command.ts","plugins/i18n/src/i18n_gizmo.ts","plugins/routes/src/routes_gizmo.ts"],[("operations routed through the app's own command registry",PR+"preferences_gizmo.ts")],None,["app.preferences, app.commands, app.i18n, app.routes, app.log"])
p("C17","Uncaught browser errors are recorded once, in order, with their details",
 "From the moment a browser app is being created until it is cleaned up, each uncaught error event on the window is appended exactly once to that app's error store, in order, as a BrowserError with its message, source, line, column and cause, is delivered once to each subscriber of the store, and is logged once as an error entry that tells it. Recorded errors are never dropped or altered, the exposed store cannot be written, and after clean up nothing more is recorded. The event's default action is prevented exactly when the app asked for it.",
 ["histories","schedules","configurations"],"every sequence of error events, subscriptions, app creations and clean ups, with and without preventDefault and causes",
 "The tests that throw a browser error do not pass reliably here; order, repetition, clean up, several apps and preventDefault are not covered.",
 ["plugins/browser/src/browser_gizmo.ts","plugins/browser/src/error_store.ts","plugins/browser/src/errors.ts"],[("window error listener","plugins/browser/src/browser_gizmo.ts"),("readonly error store","plugins/browser/src/error_store.ts")],None,["window error events, app.browser.errors, app.log"])
p("C18","Language: get returns the last language set and listeners hear every change",
 "getLanguage() returns the language last set, by setLanguage() or by invoking the set-language command in that app, or the initial one. Every setLanguage call calls each registered listener once, in registration order, with (new, old), after the new language is in effect. When the app has commands, the set-language command is registered and contributed with a title; without commands the plugin works the same.",
 ["histories","configurations"],"every sequence of language changes, listeners and command invocations, also from inside listeners",
 "Tests set one language with one listener; several listeners, sequences and changes made by listeners are not covered.",
 ["plugins/i18n/src/i18n_gizmo.ts","plugins/i18n/src/commands.ts"],[("listener array walked on each set","plugins/i18n/src/i18n_gizmo.ts")],None,["app.i18n, set-language command"])
p("C19","Browser language choice persists per app name until cleared",
 "A browser app starts with the language saved for its name, else the browser's language. A language set (through the API, the command or from a listener) is saved and is the one later apps of the same name start with; clearLanguage() returns to the browser's language, notifies listeners, and removes the saved choice, so later apps follow the browser again. Apps of other names and other storage entries are unaffected.",
 ["histories","crash_points"],"every history of set, clear, reload and browser language change, over several app names",
 "Tests check one set and one clear; reload sequences, other app names and listeners that set the language are not covered.",
 ["plugins/browser-i18n/src/browser_i18n_gizmo.ts","plugins/browser-i18n/src/browser_i18n_gizmo.ctx.ts"],[("persisting listener and storage key","plugins/browser-i18n/src/browser_i18n_gizmo.ts")],None,["app.i18n, localStorage"])
p("C20","A failing event listener never breaks the emitter; it is logged",
 "emit() on the app's event emitter never throws: events reach the listeners in subscription order, each with the emitted arguments, and when a listener throws the error is logged once as an error of that app and later emits still reach every listener. Removed and once listeners behave as in the underlying emitter, a custom emitter supplied in options is the one used, and typed events reach listeners with their payload.",
 ["histories","fault_sequences"],"every sequence of on/once/off/emit with listeners that throw at any point, for the default and custom emitters",
 "One test makes one listener throw once; later deliveries, several listeners and custom emitters are not covered.",
 ["plugins/events/src/events_gizmo.ts"],[("trapError wrapper","plugins/events/src/events_gizmo.ts")],None,["app.events.emitter"])
p("C21","App composition: gizmos build in order, later ones see and override earlier ones",
 "create() builds the gizmos in the order they were added, each receiving everything provided before it, and the app is the union of what they return, a later one overriding an earlier one of the same key. Each gizmo's start function runs once per create, right after its gizmo is built, initializers and the start function given to create run with the finished app before create() resolves (what they return runs when the app is cleaned up), and exactly one 'created' line with the app's id is logged per create, through the app's own log when it has one, else to the reporters it was given. Every create() yields an app with the given name and a new id, also when several run at the same time, and a gizmo that fails makes create() reject and logs nothing.",
 ["configurations","fault_sequences","histories"],"every combination and order of gizmos with and without dependencies, start functions, initializers and failures, and repeated creates",
 "Tests compose one or two gizmos in a fixed order; overriding, ordering of start functions, failures and repeated create() are not covered.",
 ["frameworks/app/src/just_app.ts","frameworks/app/src/just_app.logic.ts"],[("incubator proxy around create","frameworks/app/src/just_app.logic.ts")],None,["justApp().with().create()"])
p("C22","Every app has its given name and a distinct well-formed id",
 "An app, its test variant and the id gizmo expose exactly the name they were given ('test' by default for test apps), unchanged by later gizmos of the presets, and an id of exactly 15 characters from 0-9a-z. The id is drawn anew from the random source on every create, so that creates whose draws differ in their leading digits have different ids.",
 ["inputs","histories"],"every outcome of the random source, every name, and any number of creates of one or several incubators",
 "Tests check the length of one random id; short random fractions and repeated creates are not covered.",
 ["frameworks/id/src/id_gizmo.ts","frameworks/id/src/id_gizmo.logic.ts","frameworks/id/src/id_gizmo.testing.ts"],[("two random draws cut to 15","frameworks/id/src/id_gizmo.logic.ts")],None,["app.id, app.name"])
p("C23","Logs carry the app's name, reach its reporters once, and respect its levels",
 "Every log call made through an app or a logger obtained from it is delivered exactly once, in order, to each of that app's reporters (of a getNonConsoleLogger: to each that is not a console) when its level is enabled for that logger, and otherwise not at all; custom levels behave like the built-in ones, and the log tells the app's own level and level names. The entry carries the app's name as id, or name:id for getLogger(id) and getNonConsoleLogger(id), and a prefixed getter adds its prefix (prefix alone when id is empty). Log calls of one app never reach another app's reporters.",
 ["histories","configurations"],"every sequence of log calls over several apps, logger ids, prefixes, levels and custom levels",
 "Tests log one message per feature; level thresholds across loggers, custom levels on sub-loggers and several apps are not covered.",
 ["frameworks/log/src/log_gizmo.logic.ts","frameworks/log/src/log_gizmo.ts","frameworks/log/src/logger.ts","frameworks/log/src/log_gizmo.testing.ts"],[("log context built around one logger per app","frameworks/log/src/log_gizmo.logic.ts")],None,["app.log and its reporters"])
p("C24","The browser preset adds browser features without replacing the host app's own",
 "An app with the browser preset has browser, fetch, preferences and history, and keeps the very name, id, log, commands and keyboard it had, whether or not a keyboard was added. The fetch in effect is the one in the preset's browser options, else one provided by an earlier gizmo, else the page's, and requests reach it with unchanged arguments and result; history is the instance given in options, else a browser history (a memory history in the test preset), and storage, navigator and location are the page's or the test doubles given.",
 ["configurations"],"every combination of host gizmos and preset options, for the real and the test preset",
 "Tests check that the members exist for a single combination; identity of host members and precedence across combinations are not covered.",
 ["presets/browser/src/presets_browser_gizmo.ts","presets/browser/src/presets_browser_gizmo.mocks.ts","plugins/browser/src/browser_gizmo.ts","plugins/browser/src/browser_gizmo.testing.ts","plugins/fetch/src/fetch_gizmo.ts","plugins/history/src/history_gizmo.ts"],[("nested incubate and omit of host members","presets/browser/src/presets_browser_gizmo.ts")],None,["app.browser, app.fetch, app.history, app.preferences"])
p("C25","The storage test doubles behave like Web Storage",
 "A stub storage behaves as a Storage: getItem returns the last text set for a key or null, length and key(i) enumerate the present keys exactly once in a stable order with null for every other index, removeItem and clear remove, and keys of any name are independent. A stubbed localStorage or sessionStorage forwards every member that is not stubbed to the real storage and calls the stub's function, whatever it returns, for those that are.",
 ["histories","inputs"],"every sequence of storage operations over arbitrary keys, including null results and enumeration while removing",
 "Tests read one key back; enumeration after removals, re-adding and unusual keys are not covered.",
 ["plugins/browser/src/browser_gizmo.testing.ts","plugins/browser/src/testing/storage.mocks.ts"],[("Map behind a Storage interface","plugins/browser/src/browser_gizmo.testing.ts")],None,["stubStorage(), stubLocalStorage(), stubSessionStorage()"])
p("C26","State changes are logged once, by the logger the state was created with",
 "Every change of a state, store or registry, created through app.states or directly, is logged exactly once, in the order the changes are made (those made from inside subscribers included), as a PLANCK entry with the replaced and the new value, by the logger given in its meta, else by the log of its app (by the page's '@just-web/states' logger when it was created without an app or logger); each newly added subscriber is logged as one TRACE entry. Writes that change nothing, failing updaters, duplicate subscriptions and unsubscriptions log nothing, and an entry whose level is not enabled for that logger is not delivered. Logging never adds entries to the log of another app or alters what a state holds.",
 ["histories","configurations"],"every history of writes and subscriptions over several states, apps, loggers and log levels",
 "The tests log one change of one state at one level; writes without a change, asynchronous and nested changes, several apps and thresholds are not covered.",
 [ST+"states_gizmo.ts",ST+"state.ts"],[("logger chosen when the state is created",ST+"states_gizmo.ts"),("planck entry before subscribers are told",ST+"state.ts")],None,["app.states.createState/createStore/createRegistry, app.log reporters"])
p("C27","The platform: isMac() follows the page or the test options, and decides the key",
 "In an app with the os gizmo, os.isMac() holds exactly when the page runs on macOS, and isMac() of the package agrees with it; in an app with the test gizmo it answers what the isMac function of its options answers at that moment, else what the page is. formatKeyBinding(app, binding) gives the id and the key of that app's platform - mac on macOS when the binding has one, else key - and changes neither the binding nor the platform. The answer of one app never affects another app on the page.",
 ["configurations","histories"],"every platform of the page, os gizmo and test options, and shape of key binding, over several apps",
 "The tests stub the detected family and format one binding; real user agents, several apps and test options that differ between apps are not covered.",
 ["plugins/os/src/os.ts","plugins/os/src/os_gizmo.ts","plugins/os/src/os_gizmo.mocks.ts","plugins/os/src/os.ctx.ts","plugins/keyboard/src/keyBindings.ts"],[("family detected from the user agent","plugins/os/src/os.ctx.ts"),("isMac replaced by the options","plugins/os/src/os_gizmo.mocks.ts"),("key of the platform","plugins/keyboard/src/keyBindings.ts")],None,["app.os.isMac(), isMac(), formatKeyBinding()"])
p("C28","Texts are formatted by the configuration and cache given to the app's gizmo",
 "app.formatjs.intl formats texts and numbers with the locale, translations and default locale given to that app's gizmo: a translation when there is one, else the default text of the message, else its id. A missing translation is reported to the error handler of that app's configuration only. What formatting prepares is kept in the cache given to the gizmo (shared when several apps are given one) and in no other, and apps with different configurations never affect each other.",
 ["configurations","histories"],"every combination of locale, translations, default locale and cache over several apps, and every sequence of formatting",
 "The tests only check that intl is there; what it formats, its error handler, caches and several apps are not covered.",
 ["plugins/formatjs/src/formatjs_gizmo.ts"],[("createIntl from the options","plugins/formatjs/src/formatjs_gizmo.ts")],None,["app.formatjs.intl"])
p("C29","Every execution of a command is tracked once in the log of the app that runs it",
 "Whichever way a command is invoked - handlers.invoke, its own function after connect(), or a key press - the app it is dispatched to logs exactly one TRACE entry 'invoke' with the command's id, immediately before the handler runs, or before the error entry when there is no handler; commands invoked by handlers and handlers that throw are tracked the same. Registering a handler logs one TRACE entry 'register' with the id, and a notice when it replaces another. Nothing below the app's log level is delivered, no other app logs it, and tracking changes neither what is invoked nor what is returned or thrown.",
 ["histories","configurations"],"every sequence of registrations and invocations through every way of invoking, nested and failing handlers, over several apps and log levels",
 "The tests look at single entries of single calls; the order of entries and runs, nesting, failures, key presses and several apps are not covered.",
 [CM+"handlers.ts",CM+"command.ts","plugins/browser-keyboard/src/keyBindings.ts"],[("trace entry of every invocation",CM+"handlers.ts"),("functions and keys go through the handlers of the app",CM+"command.ts")],None,["log reporters of the apps; handlers; command functions; key presses"])
p("C30","The commands packages bring are announced as declared and act on one app",
 "An app offers the commands its packages bring once they have an implementation: 'just-web.showCommandPalette' when a palette is connected to it (kept out of the command palette, bound to ctrl+k - cmd+k on macOS - when the app has a keyboard), the user preference commands with a preferences implementation (only 'just-web.clearAllUserPreferences' is announced as a contribution, reading and writing are handlers only), and '@just-web/i18n/set-language' ('Set locale language') with the i18n gizmo. A contribution or key binding the app was given for such a command is kept as given, and the handler registered last is the one that runs, whether through app.commands, app.preferences, the handlers or the key. The function of the command acts on the app it was connected to last. A command without a handler logs one error, in the log of the app it was asked of (of the page when it was never connected), and does nothing else.",
 ["configurations","histories"],"every combination of packages and given contributions, handlers and key bindings, and every sequence of connecting, replacing and running, over several apps",
 "The tests run one command of one app at a time; what is announced with which combination of packages, given contributions and handlers, replaced handlers, the default keys and several apps are not covered.",
 [CM+"commands.ts",CM+"commands_gizmo.ts",CM+"command.ts","plugins/preferences/src/preferences.ts","plugins/preferences/src/preferences_gizmo.ts","plugins/preferences/src/memory_preferences_gizmo.ts","plugins/browser-preferences/src/browser_preferences_gizmo.ts","plugins/i18n/src/commands.ts","plugins/i18n/src/i18n_gizmo.ts"],[("declaration of the palette command",CM+"commands.ts"),("connecting the preference commands","plugins/preferences/src/memory_preferences_gizmo.ts"),("connecting the language command","plugins/i18n/src/i18n_gizmo.ts")],None,["app.commands, app.preferences, app.i18n, command functions, key presses"])
p("C31","app.fetch and app.history are the ones of the gizmos the app was made with",
 "Whatever chain of fetch gizmos, browser gizmos and their test variants an app is made with, app.fetch is the one of the last gizmo that brings one: the fetch gizmo the page's, the fetch test gizmo the function of its options or else the page's, a browser gizmo only the one of its options (without any of them, the page's). Each call of app.fetch, as a method or on its own, makes exactly one request, on the page, with unchanged arguments, and gives its very result or rejection, also when calls overlap. app.history of the last history gizmo is the very history given to it, or else a history of the page: push, replace, back and forward move that history and no other and are reported to each of its listeners once, in the order they subscribed, until they unsubscribe. Apps that are given the same history share it; no app changes the fetch or moves the history another app was given.",
 ["configurations","histories"],"every chain of up to three fetch and browser gizmos, and every history of navigations, listeners and requests of several apps on one page",
 "The tests make one app with one gizmo and call it once; chains of gizmos, the page's own fetch, overlapping requests, shared histories and listeners are not covered.",
 ["plugins/fetch/src/fetch_gizmo.ts","plugins/fetch/src/fetch_gizmo.mocks.ts","plugins/browser/src/browser_gizmo.ts","plugins/browser/src/browser_gizmo.testing.ts","plugins/history/src/history_gizmo.ts"],[("fetch of the page, bound to it","plugins/fetch/src/fetch_gizmo.ts"),("the given history or one of the page","plugins/history/src/history_gizmo.ts"),("options, then an earlier gizmo, then the page","plugins/browser/src/browser_gizmo.ts")],None,["app.fetch, app.history, location of the page"])
open('/verif/properties.jsonl','w').write('\n'.join(json.dumps(x,ensure_ascii=False) for x in P)+'\n')
for x in P:
    import re

