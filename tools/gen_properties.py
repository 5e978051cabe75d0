#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the file stays one-line-per-property)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=hook)))

S = "packages/stylist/src/"
C = "packages/stylist-core/src/"
M = "packages/stylist-macros/src/"

prop("C01", "A style sheet text means the same on every thread and after any history",
 "Parsing a given style sheet text yields the same sheet, the one that text denotes, on whichever thread, at whatever moment and after whatever other texts (equal, similar or malformed) were parsed in the process before or at the same time. A malformed text is rejected every time, and rejecting it has no effect on any other parse. No parse blocks forever or panics because of what other threads are doing.",
 ["schedules", "histories", "inputs"],
 "all interleavings of any number of threads parsing any texts, including near-identical and malformed ones, with threads stalling or dying in between",
 "the tests parse a few fixed texts, each on one thread and mostly once, so neither the shared parse cache's hits nor races between threads on it are exercised",
 [C+"ast/sheet.rs", C+"parser.rs", S+"style_src.rs"],
 [("process-wide parse cache behind a mutex, keyed by the full text", C+"ast/sheet.rs feat_parser"), ("only successful parses are inserted", C+"ast/sheet.rs from_str")],
 ["str::parse::<Sheet>()", "StyleSource::try_from", "Style::get_style_str"],
 [("CACHED_SHEETS", "text -> sheet, shared by all threads", C+"ast/sheet.rs")])

prop("C02", "One style manager gives equal styles one class and different styles different ones",
 "Within one style manager, two requests for a style of the same kind (scoped or global), prefix and sheet return the same class name and the same text for as long as it stays registered, however the sheet was supplied; requests that differ in kind, prefix or sheet never share one. Each style's text is the rendering of its own sheet under its own class name (or unscoped for a global style), and a handle's class name and text never change afterwards.",
 ["histories", "inputs", "configurations"],
 "all histories of style creation, through every entry point and any number of managers, threads, failed creations and unregistrations in between",
 "the tests create two equal styles back to back in the default manager; they do not mix kinds, prefixes, managers, entry points and failures in one history",
 [S+"manager/mod.rs", S+"manager/registry.rs", S+"manager/key.rs", S+"style.rs", S+"global_style.rs"],
 [("registry keyed by (is_global, prefix, sheet)", S+"manager/registry.rs"), ("lookup before id generation", S+"manager/mod.rs get_or_register_style")],
 ["Style::get_class_name", "Style::get_style_str", "GlobalStyle::get_style_str", "Style::id"],
 [("StyleRegistry.styles", "styles by key for one manager", S+"manager/registry.rs")])

prop("C03", "Class names are never reused for another style",
 "No two different styles of a style manager that are registered or still referenced ever carry the same class name or style id: not when styles were loaded from a server before, not when random ids are disabled, and not even when the source of randomness repeats itself. As long as randomness does not repeat, this holds across all managers and threads of a process, also while several threads create styles at the same time. The name always starts with the requested prefix and is a valid CSS class name whenever the prefix is.",
 ["schedules", "histories", "configurations", "fault_sequences"],
 "all interleavings of threads creating styles in any managers, with random and with sequential ids, any repeated randomness within a manager, and any loaded server data",
 "the tests draw three ids on one thread; they never race two threads on the id source, repeat its randomness, or mix loaded and fresh styles",
 [S+"utils.rs", S+"manager/key.rs", S+"manager/mod.rs"],
 [("8 random alphanumerics", S+"utils.rs get_rand_str"), ("process-wide atomic counter", S+"utils.rs get_next_style_id"), ("ids already taken in the registry are skipped", S+"manager/mod.rs")],
 ["Style::get_class_name", "Style::id", "GlobalStyle::id"])

prop("C04", "Unregistering a style affects exactly that style",
 "Unregistering a style, once or repeatedly, through any of its handles, at any time and even after its manager is gone, removes exactly that style: the next request for it makes a new style under a new class name, and no other style (including a newer one made from the same sheet) is evicted, changed or recreated by it. Existing handles keep their class name and text. (A manager that captures styles for the server keeps what it has captured: unregistering there has no effect.)",
 ["histories", "fault_sequences"],
 "all histories of creation, cloning, unregistration (fresh, stale, repeated) and dropping of handles and managers",
 "one test unregisters one style once and looks at the registry; it never unregisters through a stale or cloned handle or checks the others",
 [S+"manager/mod.rs", S+"manager/content.rs", S+"manager/registry.rs", S+"yew/global.rs"],
 [("unregister through a weak manager reference", S+"manager/content.rs"), ("removal from the registry only of the same instance", S+"manager/registry.rs")],
 ["Style::unregister", "GlobalStyle::unregister", "class names of subsequent creations"])

prop("C05", "The document holds exactly the live styles of each manager, in order",
 "In a browser, a manager's container holds exactly one style element, with that style's id and full text, for each style that is registered or still referenced, and none for any other; elements appear in creation order, or in reverse order when the manager is configured to prepend. When the last reference to an unregistered style goes away its element is removed, wherever the container is, and nothing that stylist did not put there is touched.",
 ["histories", "configurations"],
 "all histories of creating, unregistering and dropping styles and managers over any containers (head, element, shadow root, detached node, other document), appended or prepended",
 "this code is compiled for wasm32 only: no existing native test runs any of it, and the wasm tests mount one or two styles",
 [S+"manager/mod.rs", S+"manager/content.rs", S+"arch.rs"],
 [("mount on creation", S+"manager/mod.rs mount"), ("unmount when the content is dropped", S+"manager/content.rs Drop")],
 ["the simulated DOM tree"])

prop("C06", "A failing document never corrupts the styles",
 "When the document fails (no window, document or head, or any DOM operation throws, at any point of mounting or unmounting a style) the operation reports an error instead of panicking, the style counts as not created, and styles created before are unaffected. Once the document works again the same request succeeds and the document again holds each live style exactly once.",
 ["fault_sequences", "histories"],
 "all sequences of style operations with a DOM failure at any DOM call",
 "no test makes a DOM operation fail; natively these paths are not even compiled",
 [S+"manager/mod.rs", S+"arch.rs", C+"error.rs"],
 [("register only after a successful mount", S+"manager/mod.rs get_or_register_style"), ("JsValue errors wrapped", S+"manager/mod.rs mount/unmount")],
 ["Result of Style::new", "the simulated DOM tree"])

prop("C07", "Server-side capture holds every style of the render, once, in order",
 "With a static writer, the data read back from its reader holds every style and global style created through that manager up to the moment of reading, exactly once, in order of first creation, with the class name and text that the render used, whether or not handles were dropped or unregistered meanwhile. A reader that reads at an arbitrary moment, also from another thread, gets a prefix of it, and neither side ever blocks, fails or panics because of the other.",
 ["schedules", "histories", "crash_points"],
 "all histories of style creation, drop and unregistration, and all moments and threads at which the reader reads or the render is abandoned",
 "the existing SSR tests read once, after one complete single-threaded render of one or two styles",
 [S+"manager/ssr.rs", S+"manager/mod.rs"],
 [("shared style data behind a mutex, pushed on first creation", S+"manager/mod.rs get_or_register_style"), ("clone-on-read", S+"manager/ssr.rs read_style_data")],
 ["StaticReader::read_style_data", "StyleData::write_static_markup"],
 [("StyleData", "styles captured by one render", S+"manager/ssr.rs")])

prop("C08", "Static markup is exactly the captured styles, or an error",
 "The markup written for captured style data, parsed as HTML, is exactly one style element per captured style, in order, each carrying the style's id and CSS that means the same as the style's text, whatever strings, comments or markup-like text the CSS contains; nothing in the CSS can end the element early. If the output sink fails, blocks half-way or panics at any write, the failure is reported to the caller, what was written is a prefix of the full markup, and writing again to a healthy sink gives the full markup.",
 ["inputs", "fault_sequences"],
 "all captured style data, and sinks that fail, panic or call back into stylist at any write",
 "the existing tests compare one small style's markup on an infallible String",
 [S+"manager/ssr.rs"],
 [("per-style element with data-style id", S+"manager/ssr.rs write_static_markup"), ("style-context escaping", S+"manager/ssr.rs html_escape::encode_style")],
 ["the fmt::Write sink"])

prop("C09", "Loading server style data reproduces the server's styles on the client",
 "After style data produced on a server has been carried to a client and loaded into its manager, requesting any style that the server rendered returns the very class name and text the server used, without creating a new style, and any other style gets a fresh one. Loading the same data again, in pieces or interleaved with requests for those styles changes nothing, and a conflicting load is refused without altering styles that already exist.",
 ["histories", "crash_points", "schedules"],
 "all server histories, all clients in a fresh process, all serialisation formats, repeated, split, reordered and late loads",
 "the existing hydration test loads one style once in the same process",
 [S+"manager/mod.rs", S+"manager/key.rs", S+"manager/ssr.rs", C+"ast/sheet.rs", C+"bow.rs"],
 [("StyleData (de)serialisation", S+"manager/mod.rs feat_ssr_hydration"), ("load before render", S+"manager/mod.rs load_style_data")],
 ["Style::get_class_name/get_style_str on the client"])

prop("C10", "Damaged style data is an error, never a crash or a wrong load",
 "Style data that arrives truncated, corrupted, duplicated, reordered or mixed with other bytes either fails to decode with an error or decodes to well-formed data, and it never panics, aborts, hangs or exhausts memory. Whatever decodes can be sent on, listed, written as markup and loaded (or, if it contradicts itself, is refused), and a transfer delivered intact after damaged ones loads exactly the server's styles.",
 ["fault_sequences", "inputs"],
 "all single and combined transport faults on serialised style data, at any byte",
 "the tests deserialise only data they have just serialised",
 [S+"manager/mod.rs", S+"manager/key.rs", C+"ast/sheet.rs", C+"bow.rs"],
 [("serde derives and hand-written Serialize/Deserialize impls", C+"ast/sheet.rs, "+C+"bow.rs, "+S+"manager/mod.rs")],
 ["serde_json::from_slice::<StyleData>", "bincode::deserialize::<StyleData>"])

prop("C11", "Concurrent requests and threads never see each other's styles",
 "Styles created through one manager never appear in another manager's captured data, registry or document, and what one thread, request or render does (including failing, being cancelled, or panicking) has no effect on the styles another one obtains, other than sharing parsed sheets. Each thread's default manager is its own.",
 ["schedules", "histories", "fault_sequences"],
 "all interleavings of any number of requests on any number of threads, with failures and cancellations in some of them",
 "the tests never run two requests at once and cannot control how threads interleave",
 [S+"manager/mod.rs", S+"manager/ssr.rs", C+"ast/sheet.rs", S+"utils.rs"],
 [("per-manager registry and writer", S+"manager/mod.rs"), ("thread-local default manager", S+"manager/mod.rs Default")],
 ["StaticReader::read_style_data per request", "Style handles per thread"])

prop("C12", "A server-rendered page's classes are all defined by its own style data",
 "For any component tree rendered on the server, whatever the order in which suspended parts resume and whatever is rendered concurrently, every class that stylist put into the HTML is defined by the style data captured for that render, with the CSS that was asked for, and every global style of the tree is in it; components below the provider use the provider's manager and others do not. Dropping a render half-way, or a panic in it, leaves other renders unaffected.",
 ["schedules", "fault_sequences", "programs"],
 "all component trees using css!, use_style, Global and providers, all resume orders of suspended parts, cancellation and panic at any poll, and concurrent renders",
 "the existing SSR tests render one fixed tree without suspension on one task",
 [S+"yew/provider.rs", S+"yew/global.rs", S+"yew/hooks/use_style.rs", S+"yew/mod.rs", M+"styled_component.rs", M+"styled_component_impl.rs"],
 [("manager passed by context", S+"yew/provider.rs"), ("contextual css! in styled components", M+"styled_component_impl.rs"), ("style data captured as transitive state", S+"yew/provider.rs")],
 ["rendered HTML", "StaticReader::read_style_data"])

prop("C13", "Macro-made sheets are the same everywhere and interpolate fresh values",
 "A sheet made by css!, style!, global_style! or sheet! denotes the style written in the macro with the interpolated expressions' current values, each evaluated afresh every time the macro is reached, on every thread, also when several threads reach the macro for the first time at once. A panic while an interpolation is evaluated, or a failed thread, does not spoil later uses of the same macro.",
 ["schedules", "histories", "fault_sequences"],
 "all interleavings of threads reaching the same macro call sites with any interpolated values, panicking interpolations included",
 "the tests reach each macro call site once on one thread with fixed values",
 [M+"output/context.rs", M+"output/sheet.rs", M+"output/maybe_static.rs", M+"inline/mod.rs", M+"literal/mod.rs", S+"macros.rs"],
 [("static sheets behind a lazily initialised static", M+"output/sheet.rs"), ("dynamic parts evaluated per call", M+"output/context.rs")],
 ["Style::get_style_str of macro-made styles"])

prop("C14", "Styles and managers are released when nobody uses them",
 "A style lives exactly as long as its manager's registry or a handle refers to it: dropping handles does not end a registered style, unregistering does not end one that is still referenced, and once neither holds it all its memory is released. A manager that is no longer referenced is released together with everything only it held, even while its styles' handles live on, and those handles keep working.",
 ["histories", "fault_sequences"],
 "all histories of creating, cloning, unregistering and dropping styles, managers, writers and readers, in any order",
 "tests observe values, not the release of memory, and drop everything in one natural order",
 [S+"manager/mod.rs", S+"manager/content.rs", S+"manager/registry.rs"],
 [("styles refer to their manager weakly", S+"manager/content.rs"), ("registry holds styles strongly", S+"manager/registry.rs")],
 ["live heap bytes and blocks", "Style handles after their manager is dropped"])

prop("C15", "A failed or panicked style operation leaves the manager usable and unchanged",
 "When creating a style fails or panics (malformed text, an interpolated value that breaks the CSS, a refused load of style data, a panicking sink or thread), no trace of it remains: the same manager, its captured data and the process-wide state answer every later operation as if the failed one had never been attempted. Malformed text is reported as an error, not a panic, by the fallible entry points.",
 ["fault_sequences", "histories", "inputs"],
 "all histories with failing and panicking operations at any position, on any thread",
 "the tests check that one malformed text is rejected; they do not go on using the manager after failures and panics",
 [S+"manager/mod.rs", S+"style_src.rs", C+"ast/sheet.rs", S+"manager/ssr.rs"],
 [("register last", S+"manager/mod.rs get_or_register_style"), ("no lock held while rendering", C+"ast/sheet.rs, "+S+"manager/ssr.rs")],
 ["results of later operations"])

prop("C16", "Components' styles follow their lifecycle in the browser",
 "While a Yew application runs in a browser, the document holds a global style exactly while a component showing it is mounted with that style, follows it when its style or manager changes, and holds every scoped style whose class a mounted component carries, in that component's manager's container. This holds after any sequence of state changes, re-renders, remounts and unmounts, and when several components show the same style.",
 ["histories", "schedules", "programs"],
 "all sequences of renders, property and manager changes, mounts and unmounts of components using Global, css!, use_style and providers",
 "no existing native test runs client-side rendering; the wasm tests render one fixed tree once",
 [S+"yew/global.rs", S+"yew/provider.rs", S+"yew/hooks/use_style.rs", S+"yew/mod.rs"],
 [("memoised guard that unregisters on drop", S+"yew/global.rs"), ("contextual manager", S+"yew/provider.rs")],
 ["the simulated DOM tree"])

prop("C17", "Media query hooks report the current match while mounted",
 "A component using a media query hook sees, once pending events and renders have settled, whether its current query matches now: after any sequence of environment changes, query changes, re-renders and mounts, at any moment relative to rendering. It stops listening when it is unmounted or the query changes, and the prepared variant shows its fallback during server rendering and hydration and the real value afterwards.",
 ["schedules", "histories", "fault_sequences"],
 "all interleavings of media changes with renders, effects, query changes, mounts and unmounts",
 "no existing test executes these hooks against an environment that changes",
 [S+"yew/hooks/use_media_query.rs"],
 [("change listener held by an effect", S+"yew/hooks/use_media_query.rs"), ("state refreshed when the listener is attached", S+"yew/hooks/use_media_query.rs")],
 ["rendered output", "registered listeners in the simulated window"])

prop("C18", "A hydrated page keeps the server's styles without duplicates",
 "Rendering a component tree on a server, delivering its HTML and style markup to a browser and hydrating it there yields a page whose components carry the same stylist classes as the server's HTML and whose document holds each style once: nothing is mounted twice, nothing the page still uses is removed, and styles created after hydration are mounted as usual and, with the default random names, under names not used by the server.",
 ["histories", "schedules", "programs", "fault_sequences"],
 "all component trees, server and client in separate processes, any resume order on the server and any later client history",
 "no existing test hydrates a server-rendered page",
 [S+"yew/provider.rs", S+"manager/mod.rs", S+"manager/ssr.rs", S+"yew/global.rs"],
 [("style data carried as transitive state and loaded before children render", S+"yew/provider.rs")],
 ["server HTML", "the simulated DOM tree after hydration"])

prop("C19", "Printing a sheet preserves its meaning",
 "The CSS text printed for a sheet contains exactly the sheet's declarations, each under its own selectors and at-rules and in source order, and printing then parsing gives an equivalent sheet. Formatting choices never change meaning.",
 ["inputs"], "all sheets", "the tests print a few dozen sheets",
 [C+"parser.rs", C+"ast/context.rs", C+"ast/block.rs", C+"ast/rule.rs"],
 [("rendering context that opens and closes blocks", C+"ast/context.rs")], ["Style::get_style_str"])

prop("C20", "Scoped styles apply only below their own class",
 "Every selector printed for a scoped style is confined to the style's class: the current-selector sign and the root pseudo-class stand for it, pseudo-classes attach to it, and everything else is a descendant of it; a global style is printed unscoped.",
 ["inputs"], "all selectors", "the tests try a handful of selectors",
 [C+"ast/selector.rs"], [("selector rewriting", C+"ast/selector.rs")], ["Style::get_style_str"])

prop("C21", "Malformed style text is rejected as a whole",
 "Text that is not a well-formed style sheet is rejected with an error that names the position, and never accepted in part.",
 ["inputs"], "all texts", "the tests try a few malformed texts",
 [C+"parser.rs", C+"error.rs"], [("parser accepts only when all input is consumed", C+"parser.rs")], ["str::parse::<Sheet>()"])

prop("C22", "Inline and literal macro syntax denote the same sheet",
 "A style written as inline tokens and the same style written as a string literal expand to equal sheets, and code that would not is rejected at compile time.",
 ["programs", "inputs"], "all macro invocations", "the tests compile a few dozen invocations",
 [M+"inline/mod.rs", M+"literal/mod.rs"], [("two front ends onto one output", M+"output/mod.rs")], ["expanded sheets"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
