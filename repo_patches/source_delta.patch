From 4fc43ef23e4d81c33c321db32ff162f99e736b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:10 +0000
Subject: [PATCH 01/27] fix: state unsubscribe must not remove another
 subscriber when called again

---
 libraries/states/src/state.ts | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libraries/states/src/state.ts b/libraries/states/src/state.ts
index 3a07c93..4cb2e16 100644
--- a/libraries/states/src/state.ts
+++ b/libraries/states/src/state.ts
@@ -88,7 +88,10 @@ export function createState<T>(
 		if (handlers.includes(handler)) return () => {}
 		log.on(logLevels.trace, log => log(`new onChange handler: ${tersify(handler)}`))
 		handlers.push(handler)
+		let active = true
 		return () => {
+			if (!active) return
+			active = false
 			handlers.splice(handlers.indexOf(handler), 1)
 		}
 	}
-- 
2.43.0


From e8afa7ca40de64929cb71f1ea5e529da6d28b041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:10 +0000
Subject: [PATCH 02/27] fix: state unsubscribing during a notification must not
 skip another subscriber

---
 libraries/states/src/state.ts | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libraries/states/src/state.ts b/libraries/states/src/state.ts
index 4cb2e16..8b5e1d9 100644
--- a/libraries/states/src/state.ts
+++ b/libraries/states/src/state.ts
@@ -49,8 +49,9 @@ export function createState<T>(
 
 	function notifyAfterSet(old: T, value: T) {
 		log.planck('state changed:', old, value)
-		handlers.forEach(h => {
-			h(value, old)
+		// iterate over a copy as handlers can unsubscribe themselves or others when being called
+		handlers.slice().forEach(h => {
+			if (handlers.includes(h)) h(value, old)
 		})
 		return value
 	}
-- 
2.43.0


From 18c8682bf89e2704dd788c6a4cd1ddc8798e17d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:10 +0000
Subject: [PATCH 03/27] fix: state async update commits null and nothing, and
 reports the value it replaced

---
 libraries/states/src/state.ts | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/libraries/states/src/state.ts b/libraries/states/src/state.ts
index 8b5e1d9..3bbb48c 100644
--- a/libraries/states/src/state.ts
+++ b/libraries/states/src/state.ts
@@ -73,11 +73,9 @@ export function createState<T>(
 			})
 			if (p) {
 				return p.then(v => {
-					if (v === nothing) {
-						return notifyAfterSet(old, undefined as any)
-					}
-					value = Object.freeze(v ?? r)
-					return notifyAfterSet(old, value)
+					const prev = value
+					value = Object.freeze((v as any) === nothing ? (undefined as any) : v === undefined ? r : v)
+					return notifyAfterSet(prev, value)
 				})
 			}
 			value = Object.freeze(r)
-- 
2.43.0


From cdb86ae55438b6e21dd8e3d6bb1ab15426703b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:31 +0000
Subject: [PATCH 04/27] fix: state does not notify when an updater leaves the
 value unchanged

---
 libraries/states/src/state.ts | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libraries/states/src/state.ts b/libraries/states/src/state.ts
index 3bbb48c..1a40ece 100644
--- a/libraries/states/src/state.ts
+++ b/libraries/states/src/state.ts
@@ -48,6 +48,7 @@ export function createState<T>(
 	const log = meta?.logger ?? getDefaultLogger()
 
 	function notifyAfterSet(old: T, value: T) {
+		if (Object.is(old, value)) return value
 		log.planck('state changed:', old, value)
 		// iterate over a copy as handlers can unsubscribe themselves or others when being called
 		handlers.slice().forEach(h => {
-- 
2.43.0


From 36c0a9ff9d00890c05e4515892b810719171044f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:31 +0000
Subject: [PATCH 05/27] fix: registry does not report inherited members as
 entries

---
 libraries/states/src/registry.ts | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/libraries/states/src/registry.ts b/libraries/states/src/registry.ts
index 4257f89..99254c1 100644
--- a/libraries/states/src/registry.ts
+++ b/libraries/states/src/registry.ts
@@ -1,4 +1,4 @@
-import { type KeyTypes, pick, type Widen } from 'type-plus'
+import { type KeyTypes, pick, record, type Widen } from 'type-plus'
 import type { OnStateChange, ResetState, SetState, StateMeta } from './state.js'
 import { createStore } from './store.js'
 
@@ -22,7 +22,7 @@ export type Registry<K extends KeyTypes, T> = ReadonlyRegistry<K, T> & {
 export type RegistryValue<R extends Registry<any, any>> = ReturnType<R['get']>
 
 export function createRegistry<K extends KeyTypes, T>(
-	init = {} as Record<K, T>,
+	init = record() as Record<K, T>,
 	meta?: StateMeta
 ): Registry<Widen<K>, T> {
 	const store = createStore<Record<Widen<K>, T>>(init as any, meta)
@@ -33,7 +33,9 @@ export function createRegistry<K extends KeyTypes, T>(
 			return [...Object.keys(r), ...Object.getOwnPropertySymbols(r)] as Widen<K>[]
 		},
 		has(key) {
-			return store.get()[key] !== undefined
+			const r = store.get()
+			// inherited members such as `constructor` are not entries of the registry
+			return Object.prototype.hasOwnProperty.call(r, key) && r[key] !== undefined
 		},
 		size() {
 			return this.keys().length
-- 
2.43.0


From 10d471ee8c4be16bb09fcea14bdac1e5efb1bb01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:31 +0000
Subject: [PATCH 06/27] fix: commands inherited object members are not
 registered commands

---
 plugins/commands/src/handlers.ts | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/plugins/commands/src/handlers.ts b/plugins/commands/src/handlers.ts
index a1a1352..0f99190 100644
--- a/plugins/commands/src/handlers.ts
+++ b/plugins/commands/src/handlers.ts
@@ -1,7 +1,7 @@
 import { type LogGizmo, logLevels } from '@just-web/app'
 import { createRegistry } from '@just-web/states'
 import { tersify } from 'tersify'
-import type { AnyFunction } from 'type-plus'
+import { type AnyFunction, record } from 'type-plus'
 import type { HandlerRegistry } from './types.js'
 
 export namespace handlerRegistry {
@@ -11,7 +11,10 @@ export namespace handlerRegistry {
 export function handlerRegistry({ log }: LogGizmo, options?: handlerRegistry.Options): HandlerRegistry {
 	const logger = log.getLogger('@just-web/commands')
 
-	const registry = createRegistry<string, (...args: any[]) => void>(options)
+	const registry = createRegistry<string, (...args: any[]) => void>(
+		// use a record so that inherited members such as `constructor` are not treated as commands
+		Object.assign(record<string, AnyFunction>(), options)
+	)
 
 	return {
 		/**
-- 
2.43.0


From b719eea8da7f5406cbff679fa9e24234fd8150f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:31 +0000
Subject: [PATCH 07/27] fix: commands title of an id without namespace is made
 from the whole id

---
 plugins/commands/src/formatCommand.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/plugins/commands/src/formatCommand.ts b/plugins/commands/src/formatCommand.ts
index 72db5a9..056b37d 100644
--- a/plugins/commands/src/formatCommand.ts
+++ b/plugins/commands/src/formatCommand.ts
@@ -10,6 +10,7 @@ export function formatCommand(cmd: CommandContribution) {
 }
 
 function generateTitle(command: string) {
-	const i = command.indexOf('.')
+	// when there is no `.`, the whole id is used
+	const i = command.indexOf('.') + 1
 	return sentenceCase(command.slice(i))
 }
-- 
2.43.0


From 13e33938534c2e8ea5774d842a3f84812eb2cb8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:31 +0000
Subject: [PATCH 08/27] fix: routes unregister must not remove a later
 registration of the same route

---
 plugins/routes/src/routes_gizmo.ts | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/plugins/routes/src/routes_gizmo.ts b/plugins/routes/src/routes_gizmo.ts
index 4729900..ae506d4 100644
--- a/plugins/routes/src/routes_gizmo.ts
+++ b/plugins/routes/src/routes_gizmo.ts
@@ -36,11 +36,15 @@ export const routesGizmo = define({
 					return () => {}
 				}
 
+				// unique to this registration,
+				// so that unregister will not remove a later registration of the same route
+				const entry = () => handler()
 				store.set(s => {
-					s.routes[route] = handler
+					s.routes[route] = entry
 				})
 
 				return () => {
+					if (store.get().routes[route] !== entry) return
 					store.set(s => {
 						delete s.routes[route]
 					})
-- 
2.43.0


From 1af5b14bb1c2d126db240a885435f7b02276d66e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:31 +0000
Subject: [PATCH 09/27] fix: id is always 15 characters long

---
 frameworks/id/src/id_gizmo.logic.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frameworks/id/src/id_gizmo.logic.ts b/frameworks/id/src/id_gizmo.logic.ts
index b4c7ec3..05020a0 100644
--- a/frameworks/id/src/id_gizmo.logic.ts
+++ b/frameworks/id/src/id_gizmo.logic.ts
@@ -1,5 +1,5 @@
 export const logic = {
 	genAppID() {
-		return (Math.random().toString(36).slice(2) + Math.random().toString(36).slice(2)).substring(0, 15)
+		return (Math.random().toString(36).slice(2) + Math.random().toString(36).slice(2)).substring(0, 15).padEnd(15, '0')
 	}
 }
-- 
2.43.0


From d4d461520c952d30f727f52d8d99d46d7b8c14f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:07 +0000
Subject: [PATCH 10/27] fix: preferences are removed when the handler returns
 undefined, and saved when updated in-place

---
 .../browser-preferences/src/browser_preferences_gizmo.ts | 3 +--
 plugins/preferences/src/memory_preferences_gizmo.ts      | 3 +--
 plugins/preferences/src/preferences_gizmo.ts             | 9 +++++++--
 3 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/plugins/browser-preferences/src/browser_preferences_gizmo.ts b/plugins/browser-preferences/src/browser_preferences_gizmo.ts
index f89b76b..11d8dfe 100644
--- a/plugins/browser-preferences/src/browser_preferences_gizmo.ts
+++ b/plugins/browser-preferences/src/browser_preferences_gizmo.ts
@@ -4,7 +4,6 @@ import type { CommandsGizmo } from '@just-web/commands'
 import type { KeyboardGizmo } from '@just-web/keyboard'
 import { clearAllUserPreferences, getUserPreference, preferencesGizmo, setUserPreference } from '@just-web/preferences'
 import { isNothing } from '@just-web/states'
-import { produce } from 'immer'
 import { decode, encode } from 'js-base64'
 import { MaybePromise } from 'type-plus'
 
@@ -32,7 +31,7 @@ export const browserPreferencesGizmo = define({
 		setUserPreference.connect(ctx, async (key, value) => {
 			const k = getKey(ctx.name, key)
 			const original = getItem(k)
-			const v = typeof value === 'function' ? produce(original, value as any) : value
+			const v = typeof value === 'function' ? (value as any)(original) : value
 			MaybePromise.transform(v, v => {
 				if (isNothing(v) || v === undefined) {
 					ctx.log.trace(`set: clear '${k}'`)
diff --git a/plugins/preferences/src/memory_preferences_gizmo.ts b/plugins/preferences/src/memory_preferences_gizmo.ts
index facb62b..9f70f35 100644
--- a/plugins/preferences/src/memory_preferences_gizmo.ts
+++ b/plugins/preferences/src/memory_preferences_gizmo.ts
@@ -2,7 +2,6 @@ import { define, incubate } from '@just-web/app'
 import type { CommandsGizmo } from '@just-web/commands'
 import type { KeyboardGizmo } from '@just-web/keyboard'
 import { isNothing } from '@just-web/states'
-import { produce } from 'immer'
 import { MaybePromise, record } from 'type-plus'
 import { clearAllUserPreferences, getUserPreference, setUserPreference } from './preferences.js'
 import { preferencesGizmo } from './preferences_gizmo.js'
@@ -33,7 +32,7 @@ export const memoryPreferencesGizmo = define({
 		let storage = record<string, any>()
 		getUserPreference.connect(ctx, (key, defaultValue) => storage[key] ?? defaultValue)
 		setUserPreference.connect(ctx, (key, value) => {
-			const v = typeof value === 'function' ? produce(storage[key], value as any) : value
+			const v = typeof value === 'function' ? (value as any)(storage[key]) : value
 			return MaybePromise.transform(v, v => {
 				if (isNothing(v)) delete storage[key]
 				else storage[key] = v
diff --git a/plugins/preferences/src/preferences_gizmo.ts b/plugins/preferences/src/preferences_gizmo.ts
index bfa31bb..f898c28 100644
--- a/plugins/preferences/src/preferences_gizmo.ts
+++ b/plugins/preferences/src/preferences_gizmo.ts
@@ -49,10 +49,11 @@ export const preferencesGizmo = define({
 					function set(value: SetStateValue<T | undefined> | undefined) {
 						if (isType<Updater<T>>(value, value => typeof value === 'function')) {
 							return self.set(key, v => {
-								const orig: T = v !== undefined ? JSON.parse(v) : defaultValue
+								// never hand out the default value itself, as the handler can update it in-place
+								const orig: T = v !== undefined ? JSON.parse(v) : clone(defaultValue)
 								return MaybePromise.transform(value(orig as any), v => {
 									if (isNothing(v)) return v
-									if (v !== undefined) return JSON.stringify(v)
+									return JSON.stringify(v === undefined ? orig : v)
 								})
 							})
 						}
@@ -73,4 +74,8 @@ export const preferencesGizmo = define({
 	}
 })
 
+function clone<T>(value: T): T {
+	return value === undefined ? value : JSON.parse(JSON.stringify(value))
+}
+
 export type PreferencesGizmo = define.Infer<typeof preferencesGizmo>
-- 
2.43.0


From 9f50d48c9929d4b45210cc900fd23f37ac880b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:07 +0000
Subject: [PATCH 11/27] fix: browser-preferences async set completes after the
 preference is saved

---
 plugins/browser-preferences/src/browser_preferences_gizmo.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/plugins/browser-preferences/src/browser_preferences_gizmo.ts b/plugins/browser-preferences/src/browser_preferences_gizmo.ts
index 11d8dfe..360e6f5 100644
--- a/plugins/browser-preferences/src/browser_preferences_gizmo.ts
+++ b/plugins/browser-preferences/src/browser_preferences_gizmo.ts
@@ -28,11 +28,11 @@ export const browserPreferencesGizmo = define({
 			ctx.log.planck(`get: '${k}'`)
 			return getItem(k) ?? defaultValue
 		})
-		setUserPreference.connect(ctx, async (key, value) => {
+		setUserPreference.connect(ctx, (key, value) => {
 			const k = getKey(ctx.name, key)
 			const original = getItem(k)
 			const v = typeof value === 'function' ? (value as any)(original) : value
-			MaybePromise.transform(v, v => {
+			return MaybePromise.transform(v, v => {
 				if (isNothing(v) || v === undefined) {
 					ctx.log.trace(`set: clear '${k}'`)
 					localStorage.removeItem(k)
-- 
2.43.0


From 9b191bcb9de42b3bd6a83070d3117e013d45d7cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:17 +0000
Subject: [PATCH 12/27] fix: preferences of an app are not redirected to
 another app on the same page

---
 plugins/preferences/src/preferences_gizmo.ts | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/plugins/preferences/src/preferences_gizmo.ts b/plugins/preferences/src/preferences_gizmo.ts
index f898c28..08f5ec1 100644
--- a/plugins/preferences/src/preferences_gizmo.ts
+++ b/plugins/preferences/src/preferences_gizmo.ts
@@ -2,7 +2,7 @@ import { define } from '@just-web/app'
 import type { CommandsGizmo } from '@just-web/commands'
 import type { KeyboardGizmo } from '@just-web/keyboard'
 import { isNothing, type SetStateValue, type Updater } from '@just-web/states'
-import { type AnyFunction, extractFunction, isType, type JSONTypes, MaybePromise } from 'type-plus'
+import { type AnyFunction, type ExtractFunction, isType, type JSONTypes, MaybePromise } from 'type-plus'
 import { clearAllUserPreferences, getUserPreference, setUserPreference } from './preferences.js'
 
 export type { SetStateValue }
@@ -23,12 +23,16 @@ export type { SetStateValue }
  */
 export const preferencesGizmo = define({
 	static: define.require<CommandsGizmo>().optional<KeyboardGizmo>(),
-	async create() {
+	async create({ commands }) {
+		// invoke through the app, as the command functions are shared by every app on the page
+		function ofApp<F extends AnyFunction & { id: string }>(command: F) {
+			return ((...args: any[]) => commands.handlers.invoke(command.id, ...args)) as ExtractFunction<F>
+		}
 		return {
 			preferences: {
-				get: extractFunction(getUserPreference),
-				set: extractFunction(setUserPreference),
-				clearAll: extractFunction(clearAllUserPreferences),
+				get: ofApp(getUserPreference),
+				set: ofApp(setUserPreference),
+				clearAll: ofApp(clearAllUserPreferences),
 				/**
 				 * Creates a [store](https://github.com/justland/just-web/tree/main/libraries/states#createstore) for a specific key.
 				 *
-- 
2.43.0


From 67f29ba05d8302fc411261182e330878fc84d28f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:17 +0000
Subject: [PATCH 13/27] fix: commands showCommandPalette of an app is not
 redirected to another app on the same page

---
 plugins/commands/src/commands_gizmo.ts | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/plugins/commands/src/commands_gizmo.ts b/plugins/commands/src/commands_gizmo.ts
index 10512bd..31e8480 100644
--- a/plugins/commands/src/commands_gizmo.ts
+++ b/plugins/commands/src/commands_gizmo.ts
@@ -1,6 +1,6 @@
 import { type DepBuilder, define, type GizmoStatic, type LogGizmo } from '@just-web/app'
 import type { KeyboardGizmo } from '@just-web/keyboard'
-import { type AnyFunction, extractFunction } from 'type-plus'
+import type { AnyFunction } from 'type-plus'
 import { showCommandPalette } from './commands.js'
 import { contributionRegistry } from './contributions.js'
 import { handlerRegistry } from './handlers.js'
@@ -35,7 +35,12 @@ export const commandsGizmoFn: (options?: CommandsGizmoOptions) => GizmoStatic<
 			commands: {
 				contributions,
 				handlers,
-				showCommandPalette: extractFunction(showCommandPalette)
+				// the command function is shared by every app on the page,
+				// so use the handler of this app when there is one.
+				showCommandPalette() {
+					if (handlers.has(showCommandPalette.id)) handlers.invoke(showCommandPalette.id)
+					else showCommandPalette()
+				}
 			}
 		}
 	}
-- 
2.43.0


From 0377ab5fad987bdef75ce516f05c0da047f849a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:17 +0000
Subject: [PATCH 14/27] fix: i18n set language command is added to the command
 contributions

---
 plugins/i18n/src/i18n_gizmo.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/plugins/i18n/src/i18n_gizmo.ts b/plugins/i18n/src/i18n_gizmo.ts
index 08add07..6a11908 100644
--- a/plugins/i18n/src/i18n_gizmo.ts
+++ b/plugins/i18n/src/i18n_gizmo.ts
@@ -34,8 +34,8 @@ export const i18nGizmoFn = define((options: I18nGizmoOptions) => ({
 			}
 		}
 		if (commands) {
-			setLanguageCommand.connect({ commands, keyboard })
-			commands.handlers.register(setLanguageCommand.id, gizmo.i18n.setLanguage)
+			// the handler is needed for the contribution to be added
+			setLanguageCommand.connect({ commands, keyboard }, gizmo.i18n.setLanguage)
 		}
 
 		return gizmo
-- 
2.43.0


From 8516e4b8cec62a72e0e8250f9dcd79c70b36f2fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:17 +0000
Subject: [PATCH 15/27] fix: browser-keyboard treats cmd+ and command+ as the
 same key

---
 plugins/browser-keyboard/src/keyBindings.ts | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/plugins/browser-keyboard/src/keyBindings.ts b/plugins/browser-keyboard/src/keyBindings.ts
index a023dcd..f97a1b9 100644
--- a/plugins/browser-keyboard/src/keyBindings.ts
+++ b/plugins/browser-keyboard/src/keyBindings.ts
@@ -26,16 +26,18 @@ function bindKey(
 	{ log: logContext, commands, os }: LogGizmo & CommandsGizmo & OSGizmo,
 	keyBinding: KeyBindingContribution
 ) {
-	const key = getKey({ os }, keyBinding)
+	const binding = getKey({ os }, keyBinding)
+	// `cmd+` and `command+` are the same key
+	const key = binding && toMousetrapKey(binding)
 	if (key) {
 		const log = logContext.getLogger('@just-web/browser-keyboard')
 		if (keys[key]) {
-			log.warn(`Registering a duplicate key binding, ignored: ${keyBinding.id} - ${key}`)
+			log.warn(`Registering a duplicate key binding, ignored: ${keyBinding.id} - ${binding}`)
 		} else {
 			keys[key] = true
-			log.trace(`binding: ${key} -> ${keyBinding.id}`)
-			Mousetrap.bind(toMousetrapKey(key), e => {
-				log.trace(`trigger ${key}`)
+			log.trace(`binding: ${binding} -> ${keyBinding.id}`)
+			Mousetrap.bind(key, e => {
+				log.trace(`trigger ${binding}`)
 				if (e.preventDefault) e.preventDefault()
 				commands.handlers.invoke(keyBinding.id)
 				return false
-- 
2.43.0


From cf1107cfb2c21c5f231d97db8050bff741eab317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:48 +0000
Subject: [PATCH 16/27] fix: browser-keyboard treats different spellings of the
 same key as duplicates

---
 plugins/browser-keyboard/src/keyBindings.ts | 23 +++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/plugins/browser-keyboard/src/keyBindings.ts b/plugins/browser-keyboard/src/keyBindings.ts
index f97a1b9..0e600c4 100644
--- a/plugins/browser-keyboard/src/keyBindings.ts
+++ b/plugins/browser-keyboard/src/keyBindings.ts
@@ -31,10 +31,11 @@ function bindKey(
 	const key = binding && toMousetrapKey(binding)
 	if (key) {
 		const log = logContext.getLogger('@just-web/browser-keyboard')
-		if (keys[key]) {
+		const id = toKeyId(key)
+		if (keys[id]) {
 			log.warn(`Registering a duplicate key binding, ignored: ${keyBinding.id} - ${binding}`)
 		} else {
-			keys[key] = true
+			keys[id] = true
 			log.trace(`binding: ${binding} -> ${keyBinding.id}`)
 			Mousetrap.bind(key, e => {
 				log.trace(`trigger ${binding}`)
@@ -54,3 +55,21 @@ function getKey(ctx: OSGizmo, keyBinding: any): string {
 function toMousetrapKey(key: string) {
 	return key.replace(/cmd\+/, 'command+')
 }
+
+const aliases: Record<string, string> = { command: 'meta', option: 'alt', return: 'enter', escape: 'esc' }
+
+/**
+ * `mousetrap` takes the modifiers in any order, and has aliases for some keys.
+ */
+function toKeyId(key: string) {
+	return key
+		.split(' ')
+		.map(k =>
+			k
+				.split('+')
+				.map(x => aliases[x] ?? x)
+				.sort()
+				.join('+')
+		)
+		.join(' ')
+}
-- 
2.43.0


From 7f7f60029dd9d982645f4948d17222eda302029d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:30 +0000
Subject: [PATCH 17/27] fix: clean up of an app with the browser test gizmo or
 a browser preset removes the error listener

---
 plugins/browser/src/browser_gizmo.testing.ts  | 27 +++++++++++--------
 .../src/presets_browser_gizmo.mocks.ts        | 25 +++++++++--------
 presets/browser/src/presets_browser_gizmo.ts  | 23 ++++++++--------
 3 files changed, 39 insertions(+), 36 deletions(-)

diff --git a/plugins/browser/src/browser_gizmo.testing.ts b/plugins/browser/src/browser_gizmo.testing.ts
index f5d478f..4b14c39 100644
--- a/plugins/browser/src/browser_gizmo.testing.ts
+++ b/plugins/browser/src/browser_gizmo.testing.ts
@@ -12,21 +12,26 @@ export interface BrowserTestGizmoOptions extends BrowserGizmoOptions {
 
 export const browserTestGizmoFn: (
 	options?: BrowserTestGizmoOptions
-) => GizmoStatic<DepBuilder<LogGizmo, unknown>, BrowserGizmo> = define((options?: BrowserTestGizmoOptions) => ({
+) => GizmoStatic<DepBuilder<LogGizmo, unknown>, [BrowserGizmo, () => () => void]> = define((options?: BrowserTestGizmoOptions) => ({
 	static: define.require<LogGizmo>(),
 	async create(ctx) {
-		const { browser, fetch } = await incubate(ctx).with(browserGizmoFn(options)).create()
+		const app = await incubate(ctx).with(browserGizmoFn(options)).create()
+		const { browser, fetch } = app
 
-		return {
-			browser: {
-				...browser,
-				sessionStorage: options?.sessionStorage ?? browser.sessionStorage,
-				localStorage: options?.localStorage ?? browser.localStorage,
-				navigator: (options?.navigator ?? browser.navigator) as Navigator,
-				location: (options?.location ?? browser.location) as Location
+		return [
+			{
+				browser: {
+					...browser,
+					sessionStorage: options?.sessionStorage ?? browser.sessionStorage,
+					localStorage: options?.localStorage ?? browser.localStorage,
+					navigator: (options?.navigator ?? browser.navigator) as Navigator,
+					location: (options?.location ?? browser.location) as Location
+				},
+				fetch
 			},
-			fetch
-		}
+			// the inner app has its own clean up functions
+			() => () => incubate.cleanup(app)
+		]
 	}
 }))
 
diff --git a/presets/browser/src/presets_browser_gizmo.mocks.ts b/presets/browser/src/presets_browser_gizmo.mocks.ts
index 9d4583a..5a5d4cb 100644
--- a/presets/browser/src/presets_browser_gizmo.mocks.ts
+++ b/presets/browser/src/presets_browser_gizmo.mocks.ts
@@ -15,18 +15,17 @@ export interface PresetsBrowserTestGizmoOptions {
 
 export const presetsBrowserTestGizmoFn = define((options?: PresetsBrowserTestGizmoOptions) => ({
 	static: define.require<IdGizmo>().require<LogGizmo>().require<CommandsGizmo>().optional<KeyboardGizmo>(),
-	async create(ctx): Promise<PresetsBrowserGizmo> {
-		return omit(
-			await incubate(ctx)
-				.with(browserTestGizmoFn(options?.browser))
-				.with(browserPreferencesGizmo)
-				.with(historyGizmoFn(options?.history ?? { history: createMemoryHistory() }))
-				.create(),
-			'name',
-			'id',
-			'log',
-			'keyboard',
-			'commands'
-		)
+	async create(ctx): Promise<[PresetsBrowserGizmo, () => () => void]> {
+		const app = await incubate(ctx)
+			.with(browserTestGizmoFn(options?.browser))
+			.with(browserPreferencesGizmo)
+			.with(historyGizmoFn(options?.history ?? { history: createMemoryHistory() }))
+			.create()
+
+		return [
+			omit(app, 'name', 'id', 'log', 'keyboard', 'commands'),
+			// the inner app has its own clean up functions
+			() => () => incubate.cleanup(app)
+		]
 	}
 }))
diff --git a/presets/browser/src/presets_browser_gizmo.ts b/presets/browser/src/presets_browser_gizmo.ts
index 354c02b..388c3d1 100644
--- a/presets/browser/src/presets_browser_gizmo.ts
+++ b/presets/browser/src/presets_browser_gizmo.ts
@@ -14,18 +14,17 @@ export interface PresetsBrowserGizmoOptions {
 export const presetsBrowserGizmoFn = define((options?: PresetsBrowserGizmoOptions) => ({
 	static: define.require<IdGizmo>().require<LogGizmo>().require<CommandsGizmo>().optional<KeyboardGizmo>(),
 	async create(ctx) {
-		return omit(
-			await incubate(ctx)
-				.with(browserGizmoFn(options?.browser))
-				.with(browserPreferencesGizmo)
-				.with(historyGizmoFn(options?.history))
-				.create(),
-			'name',
-			'id',
-			'log',
-			'keyboard',
-			'commands'
-		)
+		const app = await incubate(ctx)
+			.with(browserGizmoFn(options?.browser))
+			.with(browserPreferencesGizmo)
+			.with(historyGizmoFn(options?.history))
+			.create()
+
+		return [
+			omit(app, 'name', 'id', 'log', 'keyboard', 'commands'),
+			// the inner app has its own clean up functions
+			() => () => incubate.cleanup(app)
+		]
 	}
 }))
 
-- 
2.43.0


From 3542888d7960c7f1dfcdef975326c949d25d0b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:44 +0000
Subject: [PATCH 18/27] fix: log test gizmo does not add its reporter to the
 options given, which sent the logs of one app to another

---
 frameworks/log/src/log_gizmo.testing.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/frameworks/log/src/log_gizmo.testing.ts b/frameworks/log/src/log_gizmo.testing.ts
index ad45ea4..1d6ae16 100644
--- a/frameworks/log/src/log_gizmo.testing.ts
+++ b/frameworks/log/src/log_gizmo.testing.ts
@@ -26,7 +26,9 @@ export type LogTestGizmoOptions<N extends string = LogMethodNames> = StandardLog
 export const logTestGizmoFn = define(<N extends string = LogMethodNames>(options?: LogTestGizmoOptions<N>) => ({
 	static: define.require(idGizmoFn),
 	async create(ctx: IdGizmo) {
-		const sl = createStandardLogForTest<N>(options)
+		// `createStandardLogForTest()` adds its reporter to the options it gets,
+		// use a copy so that the reporter of one app does not get the logs of another
+		const sl = createStandardLogForTest<N>({ ...options, reporters: [...(options?.reporters ?? [])] })
 		return {
 			log: Object.assign(buildLogContext<N>(ctx.name, sl, options), {
 				reporter: sl.reporter
-- 
2.43.0


From e15ca2776b6495865aebd7086a87a386a8aa8822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:27 +0000
Subject: [PATCH 19/27] fix: fetch test gizmo binds the fetch of the page,
 which cannot be called as a method of the app

---
 plugins/fetch/src/fetch_gizmo.mocks.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plugins/fetch/src/fetch_gizmo.mocks.ts b/plugins/fetch/src/fetch_gizmo.mocks.ts
index ded1479..0a961a0 100644
--- a/plugins/fetch/src/fetch_gizmo.mocks.ts
+++ b/plugins/fetch/src/fetch_gizmo.mocks.ts
@@ -9,7 +9,7 @@ export const fetchTestGizmoFn = (options?: FetchTestGizmoOptions) =>
 	define({
 		create() {
 			return {
-				fetch: options?.fetch ?? (fetch as Fetch)
+				fetch: options?.fetch ?? (globalThis.fetch.bind(globalThis) as Fetch)
 			}
 		}
 	})
-- 
2.43.0


From 7a8497a025f40b30e2add90e4625d2aa6c232ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:23 +0000
Subject: [PATCH 20/27] fix: stubStorage gives no key for a negative index, as
 Storage does

---
 plugins/browser/src/browser_gizmo.testing.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plugins/browser/src/browser_gizmo.testing.ts b/plugins/browser/src/browser_gizmo.testing.ts
index 4b14c39..d2b6b7d 100644
--- a/plugins/browser/src/browser_gizmo.testing.ts
+++ b/plugins/browser/src/browser_gizmo.testing.ts
@@ -50,7 +50,7 @@ export function stubStorage(): Storage {
 		key(index) {
 			let c = 0
 			for (const e of m.keys()) {
-				if (++c > index) return e
+				if (c++ === index) return e
 			}
 			return null
 		},
-- 
2.43.0


From 15c5eb90ed27bafc6b065c3d4bf1f8cccfc6445a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:23 +0000
Subject: [PATCH 21/27] fix: members of sessionStorage that are not stubbed can
 be called through stubSessionStorage

---
 plugins/browser/src/testing/storage.mocks.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/plugins/browser/src/testing/storage.mocks.ts b/plugins/browser/src/testing/storage.mocks.ts
index d24c1d5..54a513f 100644
--- a/plugins/browser/src/testing/storage.mocks.ts
+++ b/plugins/browser/src/testing/storage.mocks.ts
@@ -30,7 +30,8 @@ export function stubLocalStorage(stub: Partial<Storage>) {
 export function stubSessionStorage(stub: Partial<Storage>) {
 	return new Proxy(sessionStorage, {
 		get(target, p: any) {
-			return stub[p] ? stub[p] : target[p]
+			const v = stub[p] ? stub[p] : target[p]
+			return typeof v === 'function' ? v.bind(target) : v
 		}
 	})
 }
-- 
2.43.0


From 2adeeddf466347a185228f582d65bd7dda84caf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:23 +0000
Subject: [PATCH 22/27] fix: storage stubs use a stubbed length of 0

---
 plugins/browser/src/testing/storage.mocks.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/plugins/browser/src/testing/storage.mocks.ts b/plugins/browser/src/testing/storage.mocks.ts
index 54a513f..1593bd8 100644
--- a/plugins/browser/src/testing/storage.mocks.ts
+++ b/plugins/browser/src/testing/storage.mocks.ts
@@ -11,7 +11,7 @@
 export function stubLocalStorage(stub: Partial<Storage>) {
 	return new Proxy(localStorage, {
 		get(target, p: any) {
-			const v = stub[p] ? stub[p] : target[p]
+			const v = stub[p] ?? target[p]
 			return typeof v === 'function' ? v.bind(target) : v
 		}
 	})
@@ -30,7 +30,7 @@ export function stubLocalStorage(stub: Partial<Storage>) {
 export function stubSessionStorage(stub: Partial<Storage>) {
 	return new Proxy(sessionStorage, {
 		get(target, p: any) {
-			const v = stub[p] ? stub[p] : target[p]
+			const v = stub[p] ?? target[p]
 			return typeof v === 'function' ? v.bind(target) : v
 		}
 	})
-- 
2.43.0


From 27fa08bac4d9b1af545786aa9fc867d5c31c577a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:25 +0000
Subject: [PATCH 23/27] Revert "fix: storage stubs use a stubbed length of 0"

This reverts commit 2adeeddf466347a185228f582d65bd7dda84caf3.
---
 plugins/browser/src/testing/storage.mocks.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/plugins/browser/src/testing/storage.mocks.ts b/plugins/browser/src/testing/storage.mocks.ts
index 1593bd8..54a513f 100644
--- a/plugins/browser/src/testing/storage.mocks.ts
+++ b/plugins/browser/src/testing/storage.mocks.ts
@@ -11,7 +11,7 @@
 export function stubLocalStorage(stub: Partial<Storage>) {
 	return new Proxy(localStorage, {
 		get(target, p: any) {
-			const v = stub[p] ?? target[p]
+			const v = stub[p] ? stub[p] : target[p]
 			return typeof v === 'function' ? v.bind(target) : v
 		}
 	})
@@ -30,7 +30,7 @@ export function stubLocalStorage(stub: Partial<Storage>) {
 export function stubSessionStorage(stub: Partial<Storage>) {
 	return new Proxy(sessionStorage, {
 		get(target, p: any) {
-			const v = stub[p] ?? target[p]
+			const v = stub[p] ? stub[p] : target[p]
 			return typeof v === 'function' ? v.bind(target) : v
 		}
 	})
-- 
2.43.0


From 586b5b8da1c336263a745a5994e3859771c1d9df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:25 +0000
Subject: [PATCH 24/27] Revert "fix: members of sessionStorage that are not
 stubbed can be called through stubSessionStorage"

This reverts commit 15c5eb90ed27bafc6b065c3d4bf1f8cccfc6445a.
---
 plugins/browser/src/testing/storage.mocks.ts | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/plugins/browser/src/testing/storage.mocks.ts b/plugins/browser/src/testing/storage.mocks.ts
index 54a513f..d24c1d5 100644
--- a/plugins/browser/src/testing/storage.mocks.ts
+++ b/plugins/browser/src/testing/storage.mocks.ts
@@ -30,8 +30,7 @@ export function stubLocalStorage(stub: Partial<Storage>) {
 export function stubSessionStorage(stub: Partial<Storage>) {
 	return new Proxy(sessionStorage, {
 		get(target, p: any) {
-			const v = stub[p] ? stub[p] : target[p]
-			return typeof v === 'function' ? v.bind(target) : v
+			return stub[p] ? stub[p] : target[p]
 		}
 	})
 }
-- 
2.43.0


From e5918c284269b9a6668959dd928643174090f928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:50 +0000
Subject: [PATCH 25/27] fix: browser-keyboard binds every stroke with cmd+ in a
 key sequence

---
 plugins/browser-keyboard/src/keyBindings.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plugins/browser-keyboard/src/keyBindings.ts b/plugins/browser-keyboard/src/keyBindings.ts
index 0e600c4..c09c28d 100644
--- a/plugins/browser-keyboard/src/keyBindings.ts
+++ b/plugins/browser-keyboard/src/keyBindings.ts
@@ -53,7 +53,7 @@ function getKey(ctx: OSGizmo, keyBinding: any): string {
 }
 
 function toMousetrapKey(key: string) {
-	return key.replace(/cmd\+/, 'command+')
+	return key.replace(/cmd\+/g, 'command+')
 }
 
 const aliases: Record<string, string> = { command: 'meta', option: 'alt', return: 'enter', escape: 'esc' }
-- 
2.43.0


From 64b1b5d056c6a7ccff49c3d0746303b718c1b213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:04 +0000
Subject: [PATCH 26/27] fix: subscribers miss or misread changes when an
 updater sets the state itself

---
 libraries/states/src/state.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libraries/states/src/state.ts b/libraries/states/src/state.ts
index 1a40ece..98a44b1 100644
--- a/libraries/states/src/state.ts
+++ b/libraries/states/src/state.ts
@@ -62,7 +62,7 @@ export function createState<T>(
 	) {
 		if (Object.is(value, newValue)) return newValue
 
-		const old = value
+		let old = value
 		if (typeof init === 'function' || typeof newValue !== 'function') {
 			value = Object.freeze(newValue as T)
 		} else {
@@ -79,6 +79,8 @@ export function createState<T>(
 					return notifyAfterSet(prev, value)
 				})
 			}
+			// the updater can set the state itself, and that is the value replaced
+			old = value
 			value = Object.freeze(r)
 		}
 		return notifyAfterSet(old, value)
-- 
2.43.0


From 36779e1299e2da1f9bfdf15cb320f8fb83a1e6e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:19 +0000
Subject: [PATCH 27/27] fix: commands showCommandPalette of an app without a
 handler does not open the palette of another app

---
 plugins/commands/src/commands_gizmo.ts | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/plugins/commands/src/commands_gizmo.ts b/plugins/commands/src/commands_gizmo.ts
index 31e8480..5d64f88 100644
--- a/plugins/commands/src/commands_gizmo.ts
+++ b/plugins/commands/src/commands_gizmo.ts
@@ -35,11 +35,9 @@ export const commandsGizmoFn: (options?: CommandsGizmoOptions) => GizmoStatic<
 			commands: {
 				contributions,
 				handlers,
-				// the command function is shared by every app on the page,
-				// so use the handler of this app when there is one.
+				// invoke through this app, as the command function is shared by every app on the page
 				showCommandPalette() {
-					if (handlers.has(showCommandPalette.id)) handlers.invoke(showCommandPalette.id)
-					else showCommandPalette()
+					handlers.invoke(showCommandPalette.id)
 				}
 			}
 		}
-- 
2.43.0

