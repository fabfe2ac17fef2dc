prop("C09", "Wrapping and truncating text never lose, duplicate or exceed anything",
 "Wrapping text to a width gives lines no wider than that many cells (wide characters counted as two) whose text, read in order, is the original with only the whitespace at breaks dropped and each character keeping its style; words are split only when they alone exceed the width, and no line could have taken the next word. Folding loses nothing at all; clip and ellipsis give a prefix that fits, with the ellipsis mark only when something was cut.",
 ["inputs"], "all texts with wide and combining characters, markup spans and line breaks, all widths from 0 up",
 "Tests wrap a few ASCII sentences; failures sit at wide characters on the boundary, span edges at breaks, and tiny widths.",
 ["crates/textual/src/content.rs", "crates/textual/src/strip.rs", "crates/textual/src/segment.rs", "crates/textual/src/grapheme.rs"],
 [("wrapping", "crates/textual/src/content.rs"), ("cell-aware splitting", "crates/textual/src/grapheme.rs")],
 "generated styled texts and widths against per-character references", "property-based testing: generated styled text and widths vs per-character model and conservation invariants")
prop("C10", "A strip behaves as the row of styled cells it stands for",
 "A strip of styled segments equals the sequence of its character cells: dividing, cropping, joining, extending, aligning, simplifying and restyling it give exactly the cells that the same operation on the plain cell sequence gives, with styles and metadata; a wide character cut in half becomes a blank cell, lengths always equal the number of cells, and the way a row is divided into segments never matters.",
 ["inputs", "histories"], "all strips and all sequences of strip and segment operations",
 "Tests check fixed short strips; offsets inside wide characters and at segment borders, and chains of operations, are unbounded.",
 ["crates/textual/src/strip.rs", "crates/textual/src/segment.rs"],
 [("crop/divide/adjust", "crates/textual/src/strip.rs"), ("cell split", "crates/textual/src/segment.rs")],
 "generated operation chains against a cell-vector model", "property-based testing: model-based operation sequences on strips vs a vector of cells")
prop("C11", "Drawing changes exactly the cells inside the clip region",
 "For any sequence of drawing calls with any nesting of clip regions, each call changes only cells inside the intersection of the open clips and the screen, and sets those it covers to the character, colours and attributes requested (wide characters take two cells and never leave half of one behind). No coordinates, sizes or clip regions, however large or negative, make it crash or touch other cells, and closing a clip restores the one before.",
 ["inputs", "histories"], "all sequences of drawing and clip operations with arbitrary coordinates and canvas sizes",
 "Tests make single calls near the origin; overflow, negative offsets, nested clips and wide characters at edges need generated histories.",
 ["crates/textual/src/canvas.rs"],
 [("clip stack", "crates/textual/src/canvas.rs"), ("put_str/put_char", "crates/textual/src/canvas.rs")],
 "generated drawing histories against a cell-grid model", "property-based testing: model-based drawing histories vs a cell-grid reference model")
prop("C12", "The terminal shows exactly what was drawn, frame after frame",
 "After every flush, a terminal that obeys the bytes written shows each cell with exactly the character, foreground, background and attributes that the canvas holds, whatever frames, resizes and contents came before; nothing drawn leaks control characters or leaves attributes switched on past a cell that wants them off.",
 ["histories"], "all histories of frames drawn and flushed on one canvas",
 "Tests never interpret the bytes written; differential output errors only show for particular pairs of successive frames and styles.",
 ["crates/textual/src/canvas.rs"],
 [("diff flush", "crates/textual/src/canvas.rs"), ("style transitions", "crates/textual/src/canvas.rs")],
 "generated frame histories replayed in a terminal model", "property-based testing: generated frame histories; output bytes replayed in a reference terminal emulator and compared cell by cell")
prop("C24", "Exported screens contain every cell that is on screen",
 "Exporting a canvas as SVG, ANSI text or plain text is faithful: reading the export back gives every character at its row and column with its colours and attributes, special characters are escaped so that the SVG is well-formed XML and the text comes back unchanged, and nothing is lost at the ends of lines or segments.",
 ["inputs"], "all canvases of all sizes with any characters, colours and attributes",
 "Tests look for a few substrings in the exports of fixed screens.",
 ["crates/textual/src/svg.rs", "crates/textual/src/canvas.rs", "crates/textual/src/testing.rs"],
 [("SVG export", "crates/textual/src/svg.rs"), ("snapshots", "crates/textual/src/canvas.rs")],
 "generated canvases exported and parsed back", "property-based testing: round trip of generated canvases through SVG/ANSI/text export and independent readers")
prop("C13", "Vertical and horizontal layouts stack children at exactly the sizes asked for",
 "In a vertical or horizontal layout the children occupy consecutive, non-overlapping regions in document order, separated by exactly their (collapsed) margins; each gets the width and height its style states - cells, percent, w, h, vw, vh, auto or fr, with box sizing and min and max limits applied - and children with fr sizes share exactly the space that the others leave, to the last cell, in proportion to their fractions.",
 ["inputs"], "all lists of children with any sizes, units, margins, box sizing, min and max limits, in containers and viewports of any size",
 "Tests lay out two or three children with the same unit; rounding, leftover cells, and mixtures of units and limits are unbounded.",
 ["crates/textual/src/layouts/vertical.rs", "crates/textual/src/layouts/horizontal.rs", "crates/textual/src/layouts/size_resolver.rs", "crates/textual/src/fraction.rs"],
 [("stacking and fr sharing", "crates/textual/src/layouts/vertical.rs"), ("exact fractions", "crates/textual/src/fraction.rs")],
 "generated styles and containers against a reference of the layout rules", "property-based testing: generated children vs an independent reference layout, plus conservation (fills exactly) invariants")
prop("C14", "A grid tiles its container",
 "In a grid layout every child is placed in reading order in the first free cells that can hold its span, no two children share a cell, columns and rows have the sizes their tracks state, fr tracks share exactly the space left after gutters, and neighbouring tracks are separated by exactly the gutter; rows that are needed are added rather than children dropped.",
 ["inputs"], "all grids: track lists, spans, gutters, numbers of children and container sizes",
 "Tests use small grids with equal tracks; span placement and rounding depend on combinations.",
 ["crates/textual/src/layouts/grid.rs", "crates/textual/src/layouts/size_resolver.rs"],
 [("placement and tracks", "crates/textual/src/layouts/grid.rs")],
 "generated grids against an occupancy model and tiling invariants", "property-based testing: generated grids vs an occupancy model and exact tiling invariants")
prop("C15", "Docked, layered and positioned children never disturb the rest of the page",
 "Docked children are attached to their edge in order, the remaining children are laid out in exactly the space that is left, absolutely positioned and hidden children take no space from anybody, offsets move a child without moving its siblings, layers are drawn in the stated order, and no child ever gets a region of negative size.",
 ["inputs"], "all mixtures of docked, absolute, offset, layered and ordinary children in all containers",
 "Tests dock one widget at a time; interactions between docks, layers and flow are combinations.",
 ["crates/textual/src/layouts/mod.rs", "crates/textual/src/layouts/vertical.rs", "crates/textual/src/layouts/horizontal.rs"],
 [("dock and layer arrangement", "crates/textual/src/layouts/mod.rs")],
 "generated pages against a reference, and independence of the flow from what is outside it", "property-based testing: generated pages vs reference dock/layer arrangement; metamorphic independence relations")
prop("C20", "The text field holds exactly what was typed, at the cursor",
 "After any sequence of typing, deleting, cursor movement, assignments and enabling or disabling, the field's value is what the same edits on plain text give, character by character as users count characters (wide, combining and multi-byte ones included); the cursor always stands between characters, a disabled field ignores keys, and what is displayed is the value exactly as it is (brackets, backslashes and spaces included) or the placeholder, with the cursor mark exactly at the cursor and only when focused.",
 ["histories"], "all sequences of keys and calls, with any characters",
 "Tests type a few ASCII letters; grapheme boundaries shift under edits, and escaping shows only with special characters.",
 ["crates/textual/src/widget/input.rs", "crates/textual/src/grapheme.rs", "crates/textual/src/content.rs"],
 [("editing", "crates/textual/src/widget/input.rs"), ("display", "crates/textual/src/content.rs")],
 "generated edit histories against a plain-text model", "property-based testing: stateful edit histories vs a plain-text model, display compared cell by cell")
prop("C21", "Buttons, switches and option lists react once to what was meant for them",
 "Over any history of keys, mouse presses and releases, enabling, loading and assignments: a switch flips and a button presses exactly once for Enter, Space or a press and release inside it, and never when disabled, loading (or, for a switch, not focused); an option list's selection only ever rests on enabled entries when there are any, moves to the next enabled entry in the direction of the key, follows a click to the entry drawn there, and reports each choice once.",
 ["histories"], "all sequences of keys, mouse events and calls",
 "Tests exercise one action at a time; release outside, disabling while held, and disabled entries at the ends are histories.",
 ["crates/textual/src/widget/switch.rs", "crates/textual/src/widget/button.rs", "crates/textual/src/widget/option_list.rs"],
 [("switch", "crates/textual/src/widget/switch.rs"), ("option selection", "crates/textual/src/widget/option_list.rs")],
 "generated interaction histories against small state models", "property-based testing: stateful interaction histories vs reference state machines")
prop("C23", "A text box draws its border, titles, padding and text exactly in its place",
 "A Static draws, for any region, borders, padding, alignment and text: each edge with its own border characters and colours on the boundary of the region, the title and subtitle in their border rows at their alignment (cut with an ellipsis when too long), the wrapped text placed by content-align and text-align inside the padding, and background everywhere else; tint, hatch, outline, opacity, text opacity, line padding, automatic colour and text and title attributes change exactly the cells and colours they speak of; it changes no cell outside its region however small the region, does not depend on what was drawn before, its automatic size is exactly what its text needs, and a click on a link's cells - and only on those - triggers its action.",
 ["inputs"], "all texts, titles, styles and regions, including ones partly off screen or too small",
 "Tests draw a handful of boxes of ample size; narrow boxes, single edges, mixed edges and offsets combine without bound.",
 ["crates/textual/src/widget/static_widget.rs", "crates/textual/src/render_cache.rs", "crates/textual/src/border_render.rs", "crates/textual/src/border_box.rs", "crates/textual/src/border_chars.rs"],
 [("row rendering", "crates/textual/src/render_cache.rs"), ("content alignment and links", "crates/textual/src/widget/static_widget.rs"), ("label rows", "crates/textual/src/border_render.rs")],
 "generated boxes against an independent cell-by-cell reference", "property-based testing: generated styles, texts and regions vs an independent cell-by-cell reference drawing")
prop("C26", "The mouse reaches what is shown under the pointer, and nothing else",
 "For every arrangement of nested containers (stacks, grids, scrolling and centring ones, docks, layers, offsets, borders, scrollbars) and every scroll position reached by wheel, keys or dragging, a mouse event at a cell is delivered to exactly the widget painted in that cell, with the very region it was painted in, and to no other; cells showing borders, scrollbars, padding or nothing deliver to no widget; moving the pointer hovers exactly that widget, and an answer can only come from it.",
 ["inputs", "histories"], "all widget trees, screen sizes, scroll histories and pointer positions",
 "Tests click single widgets in simple stacks; the layout used for hit testing and the one used for drawing are computed separately and differ only in combinations of scrollbars, borders, overlap and offsets.",
 ["crates/textual/src/containers/container.rs", "crates/textual/src/containers/scrollable.rs", "crates/textual/src/containers/grid.rs", "crates/textual/src/containers/item_grid.rs", "crates/textual/src/containers.rs", "crates/textual/src/widget/screen.rs"],
 [("container hit testing", "crates/textual/src/containers/container.rs"), ("scrolled hit testing", "crates/textual/src/containers/scrollable.rs"), ("screen dispatch", "crates/textual/src/widget/screen.rs")],
 "generated trees of probe widgets; every cell of the picture is pointed at and clicked", "property-based testing: generated widget trees and scroll histories; painted picture vs mouse delivery compared at every cell")
prop("C16", "Scrolling shows the right part of the content and never leaves its bounds",
 "Over any history of wheel turns, keys, clicks on scrollbars, thumb drags, resizes and content changes, a scrolling widget shows exactly the part of its content that starts at its scroll position, clipped to its viewport and to nothing else; the position never leaves the content, changes only as the action says (a wheel turn by a fixed number of lines, keys by one line, a page or to an end, a page by at least half of what is in view but never past unseen rows) and otherwise stays unless it must be brought back into range; scrollbars appear exactly when overflow settings call for them; the thumb's length and place show the visible share, it follows the pointer while dragged, reaches both ends, and lets go for good when released.",
 ["histories"], "all content and viewport sizes, overflow and scrollbar settings, and all histories of scroll actions, resizes and content changes",
 "Tests scroll a step or two in one container; clamping across resizes, both scrollbars at once, tiny viewports and drags released elsewhere are histories.",
 ["crates/textual/src/scroll.rs", "crates/textual/src/scrollbar.rs", "crates/textual/src/containers/scrollable.rs", "crates/textual/src/containers/container.rs", "crates/textual/src/widget/screen.rs"],
 [("scroll state", "crates/textual/src/scroll.rs"), ("thumb", "crates/textual/src/scrollbar.rs"), ("scrolling containers", "crates/textual/src/containers/scrollable.rs"), ("screen scrolling", "crates/textual/src/widget/screen.rs")],
 "generated scroll histories; the scroll position and the thumb are read off the picture and compared with a model", "property-based testing: stateful scroll histories vs a reference model, read back from the drawn cells")
prop("C17", "Focus is on one widget that can take it, and keys go to that widget",
 "Over any history of Tab, Shift+Tab, focusing by index or id, and of widgets being disabled, enabled, hidden, shown or removed from display anywhere in the tree: after each focus change exactly one widget has the focus, keys are delivered to exactly that widget, and what it produces is attributed to it. Tab and Shift+Tab move to the next and previous widget that can take the focus at that moment, in document order from the widget that has it, wrapping round; hidden, displayless and disabled widgets and everything inside hidden ones are passed over, and a focus request that cannot be met changes nothing.",
 ["histories"], "all widget trees and all histories of focus moves and of hiding, showing, disabling and enabling widgets",
 "Tests focus the first or second of two visible widgets; the focus flag, the focus index and the path keys take are kept apart and fall out of step only when the set of focusable widgets changes in between.",
 ["crates/textual/src/tree.rs", "crates/textual/src/containers/container.rs", "crates/textual/src/containers/scrollable.rs", "crates/textual/src/containers/grid.rs", "crates/textual/src/containers.rs", "crates/textual/src/widget/screen.rs", "crates/textual/src/widget/app_widget.rs"],
 [("focus path and moves", "crates/textual/src/tree.rs"), ("focus in containers", "crates/textual/src/containers/container.rs")],
 "generated trees and focus histories against a model of the tree", "property-based testing: stateful focus histories on generated widget trees vs a reference model")
prop("C18", "A widget query finds exactly the widgets its selector names",
 "For every widget tree and selector (#id, Type, Type#id), queries visit exactly the matching widgets in document order, hidden ones included: the single-widget forms give the first match, first and last the ends, count the number, filters only drop what they reject, typed queries give the first match of that type; bulk operations (classes, disabled, marking dirty) change exactly the matching widgets and nothing else, and a class change is visible at once to later queries and to style sheets.",
 ["inputs", "histories"], "all widget trees with repeated ids and types, all selectors and all histories of bulk operations",
 "Tests query trees of three widgets with unique ids; order, nesting and repeated matches are unbounded.",
 ["crates/textual/src/tree.rs", "crates/textual/src/macros.rs", "crates/textual/src/widget.rs", "crates/textual/src/containers/container.rs"],
 [("queries", "crates/textual/src/tree.rs"), ("delegation by wrappers", "crates/textual/src/macros.rs")],
 "generated trees and queries against a document-order reference", "property-based testing: generated trees, selectors and bulk operations vs a document-order reference model")
prop("C19", "A message bubbles through the ancestors of its source, once each, until stopped",
 "A message from the focused widget is offered to each of its ancestors, nearest first, exactly once, and to no other widget; an ancestor's replacement is what the next one and the application see; once an ancestor stops it no further ancestor sees it; and the sender recorded in it never changes on the way.",
 ["inputs", "histories"], "all widget trees, focus positions and reactions of the ancestors",
 "Tests bubble through one or two ancestors; forwarding by intermediate containers shows only with siblings and depth.",
 ["crates/textual/src/tree.rs", "crates/textual/src/message.rs", "crates/textual/src/widget/screen.rs", "crates/textual/src/widget/app_widget.rs"],
 [("bubbling", "crates/textual/src/tree.rs"), ("envelope", "crates/textual/src/message.rs")],
 "generated trees whose containers pass on, replace or stop messages, against a model", "property-based testing: generated trees and ancestor reactions vs a reference of the bubbling order")
prop("C08", "Restyling what changed gives every widget the style it would get from scratch",
 "After any history of changes to classes, inline styles, focus, hover, pressed, disabled and visible states, contents, children and screen size, once the changed widgets have been restyled every visible widget has exactly the style that the style sheet gives its present type, id, classes and state below its present ancestors, with colour, background and visibility inherited from its parent's present style where it sets none, and its inline style on top - no matter how often or in which order widgets were restyled before.",
 ["histories"], "all widget trees, style sheets and histories of changes",
 "Tests restyle one widget after one change; a missing dirty mark or an inherited value read from a stale ancestor shows only for the change, rule and tree that depend on it.",
 ["crates/textual/src/style_resolver.rs", "crates/textual/src/containers.rs", "crates/textual/src/containers/container.rs", "crates/textual/src/widget/static_widget.rs", "crates/textual/src/widget/button.rs", "crates/textual/src/widget/switch.rs", "crates/textual/src/widget/screen.rs", "crates/tcss/src/types/mod.rs"],
 [("incremental restyle and inheritance", "crates/textual/src/style_resolver.rs"), ("dirty marks", "crates/textual/src/widget/static_widget.rs"), ("inline styles", "crates/tcss/src/types/mod.rs")],
 "generated trees, sheets and change histories; after every restyle each widget's style is compared with one computed from scratch", "property-based testing: stateful change histories on generated trees and sheets vs a from-scratch style reference")
prop("C27", "After every event the screen shows the application's current state",
 "While an application runs, every key, mouse event, resize, timer and posted message is handled exactly once and as documented: Tab and Shift+Tab move the focus, a key goes to the focused widget, its message bubbles and then reaches the application, the application's key handler follows, actions of clicked links and buttons are dispatched (quit and bell built in); messages carry the id and type of their sender. When the loop comes to rest after an event the terminal shows exactly what drawing the current widgets afresh would show: whatever the handlers changed (classes, text, focus, visibility, disabling, inline styles, the application's focus index, a rebuild of the tree with other widget types) is there without another event being needed, at the current terminal size, with the breakpoint classes of that size. A widget's tooltip appears after the configured delay of a resting pointer, one row below it and centred on it as far as the left edge allows, and goes when the pointer moves, leaves or clicks; a resize to the same size changes nothing. If the focused widget can no longer take the focus, the first one that can has it. When the application asks to quit, nothing more is handled.",
 ["inputs", "histories", "schedules"], "all applications of this shape (widget trees, reactions of handlers, rebuilds) and all histories of input events, timers and waiting times",
 "No test runs the event loop at all: it needs a terminal. Stale screens, lost focus, tooltips that stay, styles missing after a rebuild are properties of event histories.",
 ["crates/textual/src/lib.rs", "crates/textual/src/tree.rs", "crates/textual/src/context.rs", "crates/textual/src/widget/tooltip.rs", "crates/textual/src/widget/app_widget.rs", "crates/textual/src/style_resolver.rs"],
 [("event loop", "crates/textual/src/lib.rs"), ("tooltip", "crates/textual/src/widget/tooltip.rs"), ("contexts", "crates/textual/src/context.rs")],
 "generated applications and event histories run by the real event loop on a virtual clock and a model terminal, next to an instance driven by hand", "property-based testing: generated apps and event histories through the real event loop on virtual time vs a hand-driven reference and a model terminal")
prop("C28", "Timers, intervals, posts and bursts of input each arrive exactly once, on time",
 "Whatever an application asks for from on_mount or its handlers, and however input arrives (single events or bursts): every posted message is delivered exactly once, at once and in the order posted; every timer's message exactly once when its delay has passed; an interval's message at every whole multiple of its period after it was set, computed afresh each time, and never after its handle is cancelled, dropped or replaced; messages sent by background tasks through the channel arrive too; each carries the sender it was sent with. All keys and clicks are handled once, in order. Neither a stream of messages nor a stream of input keeps the other waiting. The screen shows the outcome. Asking to quit and the end of the input end the loop at once, nothing is handled afterwards, and a failing terminal ends it with that error.",
 ["schedules", "histories"], "all scripts of timers, intervals, posts, cancellations and background sends, and all arrival times and burst sizes of input",
 "Tests send one message through one channel; ordering, cancellation and starvation show only in schedules.",
 ["crates/textual/src/context.rs", "crates/textual/src/lib.rs", "crates/textual/src/message.rs"],
 [("timers and intervals", "crates/textual/src/context.rs"), ("event loop", "crates/textual/src/lib.rs")],
 "generated schedules run by the real event loop on a virtual clock; deliveries checked against a ledger of requests", "property-based testing: generated timer and input schedules through the real event loop on virtual time vs a ledger of what is due")
prop("C22", "The command palette finds, lists and runs the commands the user asks for",
 "A command matches a query exactly if the query's letters occur in its name in order, ignoring case; its score is that of the best such placement (letters, word starts and runs count, a contiguous match and an exact one count more), and the highlighted letters are those of that placement, in the name as given, whatever characters it has; finding them never takes time out of proportion to their lengths. The palette, opened by an action or by any of the keys it is bound to (with exactly the modifiers asked for, Shift aside), takes all keys and clicks: none reach the application. Once every provider has answered for the current text the list shows exactly the matching commands of all providers (those offered, for an empty text), best first and then in order of arrival, each with its help, never a result of an earlier search or session in the end, and 'No matches found' half a second later if there are none; a busy indicator shows from half a second into a search until its end, and never after. Exactly one entry is highlighted, the one last reported to the application; a new search highlights the first; Up and Down move by one and stop at the ends. Enter and a click run exactly the highlighted and the clicked command, once. Closing it (also by Escape or a click outside) is reported once with whether a command was chosen, shuts each provider down once (as does asking for the palette while it is open, which replaces them), gives the focus back before the command runs, and restores the screen.",
 ["inputs", "histories", "schedules"], "all queries and command names, all sets of providers with any response times, and all histories of keys, clicks and waiting times",
 "Tests match a handful of ASCII names and open the palette with one instant provider; races between providers, timers and keys are schedules no test samples.",
 ["crates/textual/src/fuzzy.rs", "crates/textual/src/command.rs", "crates/textual/src/widget/command_palette.rs", "crates/textual/src/widget/option_list.rs", "crates/textual/src/lib.rs"],
 [("matching", "crates/textual/src/fuzzy.rs"), ("providers", "crates/textual/src/command.rs"), ("palette", "crates/textual/src/widget/command_palette.rs"), ("event loop", "crates/textual/src/lib.rs")],
 "exhaustive alignment as matching oracle; generated provider sets and key, click and time histories through the real event loop, judged from the model terminal and the application's log", "property-based testing: fuzzy matching vs exhaustive alignment; palette sessions on virtual time through the real event loop vs a reference of what must be listed, highlighted and run")
prop("C25", "Keylines join: each cell shows exactly the lines that meet in it",
 "However many rectangles, rows and columns of keylines of whatever weights are drawn over each other, each cell shows the box-drawing character whose arms (up, right, down, left; light, heavy or double) are exactly the lines meeting in it, where lines of the same cell and direction combine to the heavier; every line is as long as asked for and in its own colour, lines outside the area are cut off, and cells no line crosses are untouched. A container with a keyline style draws such lines around and between its visible children, at the edges of the cells its layout gave them, and around nothing else.",
 ["inputs"], "all sets of overlapping keylines, all arm combinations and all containers with children, margins and grid spans",
 "Tests check a few corner and cross characters and one grid; combinations of directions and weights are 256 and of rectangles unbounded.",
 ["crates/textual/src/box_drawing.rs", "crates/textual/src/keyline_canvas.rs", "crates/textual/src/containers/container.rs", "crates/textual/src/containers/grid.rs", "crates/tcss/src/types/keyline.rs"],
 [("characters", "crates/textual/src/box_drawing.rs"), ("canvas", "crates/textual/src/keyline_canvas.rs"), ("containers", "crates/textual/src/containers/container.rs")],
 "edge-set reference drawing; the character table is written from the Unicode names", "property-based testing: generated keyline drawings and containers vs an edge-set reference drawing")
prop("C29", "Display widgets show what they stand for and paint only their own region",
 "Every built-in widget, in any state and style and however small its region, paints only cells of the region it is given (none when hidden), and the same again when drawn again. A placeholder shows its label (else its id, else 'Placeholder'), its size or its sample text, word-wrapped and centred inside its padding on its own or its palette colour, and a click on it moves to the next of the three. A header shows its icon, its title with the dimmed subtitle centred between icon and clock space and cut with an ellipsis, follows changes of both, and pressing the icon asks for the command palette. A ruler has a mark in every cell and a heavier one in every fifth; a spinner goes through ten different frames and round again. A button's variant, style and compactness and a label's variant are its classes, whatever classes the application adds and in whatever order. A tooltip is as large as its text and padding within its minimum and maximum sizes, at its position, cut at the screen's edge. A standalone scrollbar shows the visible share in the colours of its state, reports a press beside the thumb as scrolling that way, and while the thumb is held asks for the position that keeps it under the pointer.",
 ["inputs", "histories"], "all texts, styles, regions and histories of updates and mouse events of the display widgets",
 "Tests render each widget once at a comfortable size; overflow into neighbours, padding, wide characters and drags show only at particular sizes and histories.",
 ["crates/textual/src/widget/placeholder.rs", "crates/textual/src/widget/header.rs", "crates/textual/src/widget/ruler.rs", "crates/textual/src/widget/loading_indicator.rs", "crates/textual/src/widget/label.rs", "crates/textual/src/widget/button.rs", "crates/textual/src/widget/tooltip.rs", "crates/textual/src/widget/scrollbar.rs", "crates/textual/src/widget/scrollbar_corner.rs", "crates/textual/src/widget/switch.rs"],
 [("placeholder", "crates/textual/src/widget/placeholder.rs"), ("header", "crates/textual/src/widget/header.rs"), ("tooltip", "crates/textual/src/widget/tooltip.rs"), ("scrollbar", "crates/textual/src/widget/scrollbar.rs")],
 "each widget is drawn on a canvas of known cells and compared cell by cell with a model of what it shows", "property-based testing: generated widgets, styles and histories; drawn cells vs a reference model and a bounds invariant")
prop("C30", "A box that fits its content is exactly as large as the content",
 "A container, row, column or scrollable box whose size is automatic asks for exactly the room its displayed children need: the sum of their natural sizes along its direction and the largest across, collapsed margins counted once, plus its own padding and the borders it draws; sizes given in cells are kept, sizes relative to the surroundings ask for all the room there is, each axis by itself, and a box of fixed size or clipped content is not enlarged by it. Painted at the size it asks for, however deeply such boxes are nested, it shows every child at the child's own natural size, side by side without overlap, nothing cut off and no cell left over. A centring box paints its child at its natural size in the middle of the room along its axis (the odd cell after it), and asks for exactly the child's size, or nothing when the child is not displayed.",
 ["inputs"], "all nestings of automatically sized boxes and leaves of any sizes, margins, padding and borders",
 "Tests measure a container with one or two plain children; margins, borders, box kinds and nesting combine without bound, and an error of one cell in any of them cuts content off.",
 ["crates/textual/src/containers/container.rs", "crates/textual/src/containers/scrollable.rs", "crates/textual/src/containers.rs", "crates/textual/src/layouts/mod.rs", "crates/textual/src/layouts/vertical.rs", "crates/textual/src/layouts/horizontal.rs"],
 [("natural size of containers", "crates/textual/src/containers/container.rs"), ("natural size of scrollable containers", "crates/textual/src/containers/scrollable.rs"), ("centring", "crates/textual/src/containers.rs")],
 "generated nestings measured and painted; the size asked for is compared with the sum of the parts and with what painting at that size shows", "property-based testing: generated nestings of automatic boxes vs a size model, and a metamorphic relation between measuring and painting")
prop("C31", "Links in text show their state and ask for their action exactly when pressed",
 "A link in a text, wherever it lies, however its text is styled, nested, broken over lines or cut, looks as the link styles in force say: its background, if any, over the background of its own text; its colour, if any, over that (automatic: black or white, whichever reads better); without one, the colour that reads best; the attributes of its text and of the link style, and underlined. While the pointer was last seen on it, it and every other link to the same action look as the hover styles say, where they say anything, with the attributes added; all other text, and every link when the pointer has left, looks as always. A press of the left button on a cell showing a link asks for the action of that link, once; any other event or place asks for nothing. New texts and styles hold from the next drawing on.",
 ["inputs", "histories"], "all texts with styled and nested links, all link styles, and all histories of pointer movements, presses, new texts and styles",
 "Tests look at one hovered link of one text; the mixtures of own, link and hover styles, translucent and automatic colours and histories of the pointer are unbounded.",
 ["crates/textual/src/content.rs", "crates/textual/src/widget/static_widget.rs", "crates/textual/src/widget/label.rs", "crates/tcss/src/types/link.rs", "crates/tcss/src/types/color.rs"],
 [("link styles", "crates/textual/src/content.rs"), ("link regions and pointer", "crates/textual/src/widget/static_widget.rs")],
 "generated link texts, styles and pointer histories drawn on a canvas; every cell of text compared with a model of its look, every press with the link shown there", "property-based testing: generated link texts, styles and pointer histories vs a model of every cell's look and action")
prop("C32", "The macros build and wrap exactly what they are given",
 "A tree spelled in ui! or widget! becomes exactly the widgets spelled: each name is constructed with its positional arguments in order, children last when there are braces (empty ones too), each named argument is applied as the builder of that name in the order written, children and splatted lists stand in the order written, also several splats in a row, and every argument expression is evaluated exactly once, whatever expressions (paths, closures, blocks, struct literals, nested macros), nesting, white space, comments and trailing commas are used; a positional argument after a named one, an empty tree, a child that is no widget, or a value left out is a compile error. A widget made by impl_widget_delegation! and a boxed widget answer every call as the widget inside does and pass on everything they are told, once, except for the type name and default style sheet given to the macro.",
 ["inputs", "histories"], "all trees and spellings of the macro grammar and all sequences of calls on a wrapped widget",
 "Tests spell a few small trees; orders, spans between arguments, children and splats, and each single delegated method are not covered.",
 ["crates/textual-macros/src/parse.rs", "crates/textual-macros/src/codegen.rs", "crates/textual/src/macros.rs", "crates/textual/src/widget.rs"],
 [("macro syntax", "crates/textual-macros/src/parse.rs"), ("macro expansion", "crates/textual-macros/src/codegen.rs"), ("delegation", "crates/textual/src/macros.rs"), ("boxed widgets", "crates/textual/src/widget.rs")],
 "generated programs are compiled with the project's macros over stand-in widgets and what they print is compared with the tree that was meant; wrappers are compared call by call with the widget itself", "property-based testing: generated macro invocations compiled and run vs the tree meant; differential call sequences on wrapped and bare widgets")
prop("C33", "A widget is what it was last told to be",
 "After any history of setters, class changes, focus, hover and press states, inline styles, resizings, restylings and drawings, every built-in widget answers with what it was last told (classes, id, disabled, focused, hovered, pressed, visible, loading, inline style, border titles, tooltip, and its own text, value, cursor, items, selection, variant, title or children), tells the style sheet the same, and whenever what styles it changed, is marked to be styled again. Styled again where marked, it has the same style, asks for the same sizes, and shows the same cells as a widget of the same kind made with those attributes straight away, whether by builders or by setters; and both answer the same keys and mouse events in the same way from there on. Nothing of what it was before shows through.",
 ["histories", "inputs"], "all histories of changes to a widget of any built-in kind, under all style sheets",
 "Tests set one attribute of a fresh widget and read it back; forgotten refreshes, stale caches and attributes lost by another setter need two or more particular changes in a row.",
 ["crates/textual/src/widget/static_widget.rs", "crates/textual/src/widget/label.rs", "crates/textual/src/widget/button.rs", "crates/textual/src/widget/switch.rs", "crates/textual/src/widget/input.rs", "crates/textual/src/widget/option_list.rs", "crates/textual/src/widget/placeholder.rs", "crates/textual/src/widget/ruler.rs", "crates/textual/src/widget/loading_indicator.rs", "crates/textual/src/widget/scrollbar.rs", "crates/textual/src/widget/scrollbar_corner.rs", "crates/textual/src/widget/header.rs", "crates/textual/src/widget/tooltip.rs", "crates/textual/src/containers/container.rs", "crates/textual/src/containers/vertical.rs", "crates/textual/src/containers/horizontal.rs", "crates/textual/src/containers/grid.rs", "crates/textual/src/containers/item_grid.rs", "crates/textual/src/containers/scrollable.rs", "crates/textual/src/containers/vertical_scroll.rs", "crates/textual/src/containers/horizontal_scroll.rs", "crates/textual/src/style_resolver.rs"],
 [("widgets", "crates/textual/src/widget/static_widget.rs"), ("containers", "crates/textual/src/containers/container.rs"), ("restyling", "crates/textual/src/style_resolver.rs")],
 "stateful generation: the widget after a history is compared with a model of its attributes and with a widget made with the final attributes, cell by cell, before and after further events", "property-based testing: stateful histories of setters vs an attribute model and a freshly made widget (history independence)")
