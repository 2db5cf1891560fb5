import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":x,"meaning":x,"where":files[0]} for x in state]
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
T="slate/terminal.py";S="slate/screen.py";SP="slate/span.py";C="slate/color.py";K="slate/core.py";E="slate/event.py";N="slate/key_names.py"
p("C01","Terminal modes switched by a context are undone on every exit",
 "Leaving the alternate-buffer, no-echo, mouse-reporting or synchronized-output context puts every terminal mode it switched (alternate buffer, cursor visibility, echo, mouse reporting, synchronized updates) back and flushes that, whether the body ends normally, returns or raises anything, keyboard interrupts and system exits included. While the body runs the mode really is switched, with a well-formed sequence. An exception raised by the body is passed on, never swallowed.",
 ["fault_sequences","programs"],"every context manager, every way its body can end",
 "Tests cannot interrupt a body at every point, and the suite excludes these context managers from coverage altogether.",
 [T,K],[("context managers","Terminal.alt_buffer/no_echo/report_mouse/batch"),("mode sequences","START_ALT_BUFFER.. in slate/core.py, Terminal.set_report_mouse"),("echo","set_echo")],observe=["writes to the terminal's stream","stty"])
p("C02","The terminal's original title is saved and restored in balance",
 "Over any sequence of title changes, title resets and alternate-buffer exits, the original title is saved exactly once before the first change, restored exactly once by the next reset or alternate-buffer exit, and never restored when nothing is saved; an empty title counts as a change like any other. After a restore, the next change saves again. Each change sends exactly the given text as the title.",
 ["histories","inputs"],"all sequences of title operations, all title texts",
 "The balance depends on the history of calls and on titles such as the empty string; the suite has no test for titles.",
 [T,K],[("title state","Terminal.set_title, Terminal.alt_buffer"),("sequences","STORE_TITLE/SET_TITLE/RESTORE_TITLE")],observe=["writes to the stream"])
p("C03","Reading a key leaves the terminal's input settings as they were",
 "However a key read ends (input arrived, read error, decoding problem, interrupt, timeout), the terminal's line settings that were in effect before the call are restored exactly, on the same descriptor. A keyboard interrupt during the read is reported as the Ctrl-C key rather than raised.",
 ["fault_sequences"],"every point at which reading input can fail or be interrupted",
 "Needs a fault at each read; the functions are excluded from coverage because the suite has no terminal.",
 [K],[("raw reads","_getch_posix"),("interrupts","getch")],observe=["termios/tty calls"])
p("C04","A timeout leaves no alarm and no handler behind",
 "When a timed block or a timed key read ends, for whatever reason (done in time, timed out, exception, interrupt, a duration that is refused), no alarm is pending and the alarm handler that was installed before is installed again, but not before the alarm is off. Running out of time ends the block silently (a timed read then returns its default), while any other exception passes through.",
 ["fault_sequences","schedules"],"every way a timed block can end",
 "The alarm may fire, or the body fail, at any point; no test covers it.",
 [K],[("timeout","timeout, getch_timeout")],observe=["signal.signal/setitimer/alarm calls"])
p("C05","Output goes only to the terminal's own stream, and is flushed",
 "Drawing writes exactly the rendered screen to the stream the terminal object was given and then flushes it, and control sequences go to that same stream unchanged and are flushed unless the caller opts out. Writing, clearing and exporting touch the stream not at all. Nothing in the library writes files, prints, or talks to any other stream or process, except for the echo switch and the command line tool.",
 ["programs","inputs"],"every call of the public interface, every reachable effect",
 "Tests see the stream they pass in, not the files or other streams code may touch on some path.",
 [T,K,S,SP,C,E],[("stream writes","Terminal.write_control, Terminal.draw"),("effects","every call in the package")],observe=["external calls"])
p("C06","Every changed cell is scheduled for the next draw with its content",
 "Whenever a cell of the screen takes a new value (by writing, resizing or clearing), that same position is recorded for the next draw together with the text and both colors the cell now has. Nothing outside the current size stays recorded after a resize. After a resize or clear, every cell of the new size is recorded.",
 ["histories","inputs"],"all screens, all write/resize/clear sequences (scrolling past the bottom row is a recorded known finding)",
 "The terminal silently shows stale content only for particular sequences of writes and resizes, which sampled tests do not reach.",
 [S],[("diffing","Screen.write_bulk"),("resizing","Screen.resize, Screen.clear"),("record","ChangeBuffer")],state=["cell matrix","pending changes"])
p("C07","Any coordinates and sizes are safe: no crash, no wrap-around writes",
 "Writing at any position (negative, beyond the edges, far below the bottom) with any spans, and resizing to any size, never raises an index error and never addresses a cell outside the screen or counted from the wrong end. The screen always stays a matrix of exactly height rows of width cells.",
 ["inputs","histories"],"all integer coordinates, sizes and span lists",
 "Python's negative indices make out-of-range accesses silently hit other cells; only a bound proof covers every coordinate.",
 [S],[("bounds","Screen.write_bulk"),("matrix","Screen.resize")],state=["cell matrix"])
p("C08","Text lands cell by cell from the cursor, wraps at the edge, moves the cursor",
 "Each character of each span is placed, with its own style and its span's colors, at the current position, which then advances one column, continuing at the start of the next row after the last column; a newline moves to the next row, in the same column, and is not placed. Without an explicit position, writing starts at the screen's cursor, and after a write the cursor is where the text ended. A later write to the same cell replaces an earlier one in the same batch, unless its background is translucent.",
 ["inputs","histories"],"all texts, positions and screen widths",
 "Positions after wraps depend on every preceding character; tests sample a few short strings.",
 [S],[("placement","Screen.write_bulk"),("cursor","Screen.write")],state=["cell matrix","cursor"])
p("C09","Rendering emits every pending change once, at its place, and clears it",
 "A normal render outputs each pending change exactly once, in row order, preceded by a cursor move to its position shifted by the origin unless it directly follows the previous change on the same row; a redraw outputs every cell of every row that way. Either way nothing remains pending afterwards. A normal render leaves no style switched on at its end.",
 ["histories","inputs"],"all sets of pending changes, all origins",
 "Adjacent-change merging depends on the exact set of changed cells.",
 [S],[("rendering","Screen.render"),("order","ChangeBuffer.gather")],state=["pending changes"])
p("C10","Unchanged cells cost nothing; the change count is exact",
 "Writing a cell with the content and colors it already has records nothing, unless an overwrite is forced, in which case every written cell is recorded. The returned number is exactly the number of cells recorded by that write. Cells not covered by the write are neither changed nor recorded.",
 ["histories","inputs"],"all screens and writes",
 "Equality of old and new content must be decided per cell for every history.",
 [S,T],[("diffing","Screen.write_bulk"),("forwarding","Screen.write, Terminal.write, Terminal.write_bulk")],state=["cell matrix","pending changes"])
p("C11","Color codes fit the active color space and the color's layer",
 "The code produced for a color is always one the active color space allows: greyscale palette indices only when colors are disabled, the 16 standard codes, the 256-color form, or any form in true color, and always within the valid index and channel ranges. A background color produces a background code and a foreground color a foreground code. A color given as a code the active space supports is reproduced as given, any other color in true color spells exactly its own channels, and colors a smaller space has itself (the sixteen standard colors among the standard codes, black, white and the saturated primary and secondary colors in the 256-color palette, black and white at the ends of the greyscale ramp) map to that very entry.",
 ["inputs","configurations"],"all colors, all four color spaces, all descriptions",
 "16.7 million colors times four spaces times the ways to spell them.",
 [C,K],[("codes","Color.ansi"),("ordering","ColorSpace"),("construction","Color.from_ansi")],observe=["Color.ansi"])
p("C12","Derived colors stay valid and on the same layer",
 "Lightening, darkening, blending, shifting hue, complementing and the triadic, analogous and tetradic groups never fail for any color and any amount short of floating-point overflow, give integer channels from 0 to 255, and stay on the layer (foreground or background) of the color they derive from; so does the contrast color, and the standard black and white are exactly that, on the layer asked for. Blending gives each channel in proportion, up to rounding: by nothing the color's own channels and by one the other color's; lightening by a positive amount never lowers a channel and darkening never raises one; shifting hue moves it by the amount round the color circle, up to rounding, and complementing and the triadic and tetradic groups are such shifts by even parts of it (by half for the complement, unless the hue is zero); shifting hue and complementing keep the alpha. Changing the alpha or the layer keeps the channels and every other property of the color.",
 ["inputs"],"all colors, all amounts including out-of-range ones",
 "Channel overflow happens only for particular colors and amounts.",
 [C],[("blending","Color.blend/lighten/darken"),("hue","Color.hue_shift/complement and groups"),("layer","Color.as_background/as_alpha")])
p("C13","Color descriptions decode to the channels, layer and alpha they spell",
 "Hexadecimal, named, tuple, palette-index, standard and true-color descriptions each decode to exactly the channels they spell (through the palette where indexed), the layer their prefix names and the alpha they carry. Channels outside 0 to 255, indices outside the palette and unknown prefixes are rejected with a value error.",
 ["inputs"],"all descriptions",
 "The space of descriptions (every index, prefix and alpha suffix) is far beyond samples.",
 [C,"slate/color_info.py"],[("decoding","color, Color.from_ansi, Color.from_hex"),("validation","Color.__post_init__"),("palette","COLOR_TABLE, NAMED_COLORS")])
p("C14","Spans and colors are never modified after creation",
 "Once created, a span or color never changes: no operation of the library assigns to its attributes, and attribute assignment from outside is rejected. Attribute dictionaries handed out are copies, so changing them does not affect the object.",
 ["programs","histories"],"all operations on spans and colors",
 "Shared spans are used as cache keys and defaults; one hidden mutation anywhere corrupts unrelated text.",
 [SP,C],[("frozen classes","Span, Color"),("copies","Span.attrs")])
p("C15","Deriving a span changes only what was asked for",
 "Every derived span (styled, colored, linked, sliced, split or mutated) equals the original in every attribute except those explicitly changed. Slicing and splitting divide only the text, with all pieces keeping the style, and coloring changes the layer the given color belongs to.",
 ["inputs"],"all spans, all derivations",
 "Each derivation must preserve all fourteen other attributes for every combination.",
 [SP],[("derivation","Span.mutate, Span.attrs, Span.as_*, Span.split, Span.__getitem__")])
p("C16","A span prints its text with exactly its styles, properly closed",
 "The string form of a span is its text preceded by one style sequence holding exactly the codes of the styles and colors that are set (none when nothing is set) and followed by a reset when there is such a sequence and resetting is enabled; a hyperlink wraps all that and is always closed. Splitting into characters yields one string per character of the text, in order, each carrying the same style as asked for, with the reset after the last.",
 ["inputs"],"all combinations of ten styles, two colors, hyperlink and reset",
 "Over 16,000 attribute combinations for every text.",
 [SP],[("sequences","Span.__post_init__, Span._generate_sequences"),("characters","Span.get_characters"),("codes","SETTERS")])
p("C17","Style codes and their parsed meaning are consistent inverses",
 "Every style code a span can print is parsed back to that very style and no other, every unset code turns off exactly the styles it stands for, a reset turns off everything, and color codes set the layer they belong to. Codes that stand for nothing, and only those, are rejected with a value error.",
 ["inputs"],"all style, unset, reset and color codes, in any combination",
 "All codes in all states of the other attributes; tests try a handful.",
 [SP],[("tables","SETTERS, UNSETTERS"),("parsing","_parse_sequence, _is_valid_color, _is_background_color")])
p("C18","Text is escaped wherever it enters exported SVG",
 "Whatever text the screen or a span holds, its characters with a meaning in SVG markup (angle brackets, ampersand, quotes) reach exported SVG only in escaped form, exactly once escaped. No other part of the output is taken from the text.",
 ["inputs"],"all texts",
 "A single unescaped path is an injection that only a hostile text would reveal.",
 [SP,S,T],[("escaping","_escape_html, Span.as_svg"),("assembly","Screen.export_svg_with_styles, Terminal.export_svg")])
p("C19","Exported SVG shows each cell with its own colors and styles",
 "In exported SVG, every cell's text appears once, in order, inside an element whose fill is the cell's foreground color (or the default one) over a rectangle filled with its background color (or the default one), swapped when inverted, as valid color values; its styles are present in the style attribute or class, and no others. Elements are placed by the row and column of their cells, from the origin on, in columns of one width and rows of one height. Cells are joined into one element only when all their styles and colors are equal.",
 ["inputs"],"all screens and spans",
 "Depends on adjacent cells' combinations of styles and colors; no test covers SVG export.",
 [SP,S,T],[("elements","Span.as_svg, Span.get_svg_styles"),("grouping","Span.group"),("assembly","Screen.export_svg_with_styles, Terminal.export_svg")])
p("C20","Events reach every listener once, in order, with the data",
 "Emitting an event calls every registered listener exactly once per registration, in that order, with the emitted data, regardless of what the other listeners return, and yields a true result exactly when at least one listener returned something true. Registering something that cannot be called is refused and leaves the event as it was; clearing removes all listeners.",
 ["histories","inputs"],"any number of listeners, any return values",
 "Must hold for any number of listeners and any return values, including none.",
 [E],[("emission","Event.__call__"),("registration","Event.__iadd__, Event.append, Event.clear")])
p("C21","Size changes are announced once and resize the screen",
 "Whenever the terminal's size is queried and differs from the last query, the resize event fires exactly once with the new size, before the query returns, and never otherwise; the terminal's screen is resized to it by a listener that is always there. A listener that queries the size itself sees the new size and does not cause another event.",
 ["histories","programs"],"all sequences of size queries, and listeners that query the size",
 "Depends on the history of sizes and on re-entrancy from listeners.",
 [T],[("size","Terminal.size"),("listener","Terminal.__post_init__")],state=["last known size"])
p("C22","Key and mouse tables match the terminal protocols",
 "Every sequence in the key tables names the key xterm-compatible terminals send it for, including the modifier, and control characters map to their letter; every standard arrow, editing and function key of the covered families is present and no two different keys share a name. Every mouse code names the button or wheel action and exactly the modifiers encoded in its bits.",
 ["inputs"],"every entry of the tables",
 "Table entries are independent facts; tests check two mouse codes and no key.",
 [N,K],[("keys","POSIX_KEY_NAMES"),("mouse","MOUSE_EVENTS, _build_event")])
p("C23","Decoding terminal input never fails and reports mouse events faithfully",
 "Whatever text arrives as input, decoding it never raises: a complete mouse report yields its event name and exactly its coordinates, with clicks told apart from releases, and anything else yields no mouse event. Keys are then looked up by the exact text, and unknown input is passed through unchanged (all of it unchanged in raw mode).",
 ["inputs"],"all input strings",
 "Input is arbitrary bytes from the user, pastes included.",
 [K],[("mouse","parse_mouse_event"),("keys","getch")])
p("C24","The color space is chosen by the documented precedence",
 "A color space forced on the terminal wins over everything; then comes the library's own environment override, then the convention to disable colors (set to anything, even empty), then the color-term variable, then the terminal type, and the 16 standard colors are the fallback. Forcing a color space notifies listeners with it.",
 ["configurations"],"all combinations of the environment variables",
 "Every combination of set, empty and unset variables; tests try four.",
 [K,T],[("detection","get_color_space"),("forcing","Terminal.color_space")])
p("C25","Cached results are never corrupted or outdated",
 "Repeating an operation on an equal span or color gives an equal result, no matter what was done with the earlier result inside the library: nothing kept in a cache or shared between calls is modified. Whatever of a span or a color depends on the terminal's color space always reflects the one in effect when it is asked for.",
 ["histories","programs"],"all functions with cached results, all callers",
 "Corruption shows only when an earlier call's result is reused later.",
 [SP,C,S,T],[("caches","lru_cache/cached_property users"),("scrolling writer","Screen.write_bulk"),("color codes","Color.ansi")])
p("C26","Fed input is delivered completely, once and in order",
 "Text fed to the input is returned by the next key read completely and in the order it was fed, even if fed in several pieces, takes precedence over the terminal, and is delivered only once. Feeding works the same after earlier text has been read.",
 ["histories"],"all sequences of feeding and reading",
 "Depends on the interleaving of feeds and reads.",
 [K],[("feeding","feed, feeder_stream"),("reading","_getch_posix")],state=["fed text"])
p("C27","Parsing styled text keeps every visible character, in order",
 "Parsing a styled string into spans yields, in order, all of its text outside of style sequences, including before the first, between, and after the last sequence, and none of the sequences themselves. Each piece carries the styles in effect at its position, which start out empty and persist until changed. Writing a string to the terminal writes exactly these spans.",
 ["inputs"],"all strings made of text and style sequences",
 "Text positions relative to sequences vary without bound.",
 [SP,T],[("parsing","Span.yield_from"),("use","Terminal.write, Terminal.write_bulk")])
p("C28","Contrast colors can be read on what they are made for",
 "The contrast color of any color is at a W3C contrast ratio of at least 3:1 (the guideline for large text) from it: light for dark colors and dark for light ones, on the same layer, and opaque even if the color is not. The luminance it is chosen by is the W3C relative luminance of the color's channels.",
 ["inputs"],"all colors","A numeric bound over 16.7 million colors.",
 [C],[("contrast","calculate_contrast, Color.contrast"),("luminance","calculate_luminance")])
p("C29","Colors a color space lacks are shown by the nearest it has",
 "When a color has to be approximated, the standard code chosen is that of an entry at the least distance of all sixteen, by the weighted Euclidean (redmean) measure the code cites; in the 256-color palette each channel gets the nearest of the six levels of the color cube, taken as evenly spaced; and without colors the greyscale step is the one nearest to the color's brightness (perceived lightness, from 0 for black to 1 for white).",
 ["inputs"],"all colors, all color spaces","16.7 million colors; the suite looks at a few.",
 [C],[("approximation","Color.ansi, geometric_difference"),("brightness","calculate_brightness, calculate_luminance")])
p("C30","An escape sequence that arrives in pieces is read as one key",
 "An escape sequence whose bytes the operating system delivers with pauses between them is still returned as one key, and two keys pressed one after the other are returned as two.",
 ["schedules"],"all arrival timings of input bytes","Depends on timing of bytes arriving.",
 [K],[("reading","_getch_posix, _is_ready")])
p("C31","Translucent colors are blended over what is below them, each on its layer",
 "Whatever spans are stacked onto a cell in one write, with whatever alpha values, it is drawn with at most one color on the foreground layer and at most one, opaque, on the background layer. A span with an opaque background or none hides everything written there before; a translucent background is blended over the backgrounds below it, or the terminal's. The character shown is the topmost span's, except that a blank with a translucent background, unless marked opaque, lets the character below show through, tinted.",
 ["inputs","histories"],"all stacks of spans on a cell, all colors and alpha values",
 "The result depends on the whole stack of translucent layers of a cell; tests sample a few stacks.",
 [S,C,SP],[("layering","Screen.write_bulk"),("blending","Color.blend"),("layers","Color.is_background, Span.foreground/background")],state=["layers of a cell"])
p("C32","A key read takes all the input that is ready, whole, and ends with it",
 "A key read returns all input that is ready, in order and decoded whole, although it is read byte by byte: reading goes on while more is ready or a character is incomplete, and no longer. It reads and polls the stream it was given, and ends when the input has ended instead of waiting forever.",
 ["inputs","histories"],"all byte sequences, all answers of select() and read()",
 "How many bytes are ready at each step, and where characters are split, varies without bound; the suite has no terminal.",
 [K],[("reading","_getch_posix, _is_ready")])
p("C33","The terminal's answers to queries are decoded faithfully",
 "The pixel size, the default colors and the support for synchronized updates are exactly what a well-formed reply of the terminal spells; no reply, a malformed one, or no terminal gives the documented fallback and never an error. Each query is the right sequence, sent once and flushed to the terminal's own stream before its answer is waited for, and nothing is sent where there is no terminal.",
 ["inputs","configurations"],"all replies of a terminal, terminals or not",
 "Replies are chosen by the terminal; the suite runs without one.",
 [T,C,K],[("resolution","Terminal.resolution"),("synchronized updates","Terminal.supports_synchronized_update"),("default colors","get_default_color")],observe=["writes to the stream","returned values"])
p("C34","The width of text counts its visible characters only",
 "The width of a string is the number of its characters outside of style, cursor, link and graphics sequences, and the width of a span is the length of its text, whatever its styles, colors and link; the string form of a span is as wide as the span.",
 ["inputs"],"all strings of text and sequences, all spans",
 "Sequences and text vary without bound.",
 [K,SP],[("text width","width"),("span width","Span.__len__")])
p("C35","Resizing and clearing a screen keep exactly what they should",
 "Resizing, which a terminal whose size changed does to its screen, keeps the text and the colors of every position that is inside of both sizes (unless told not to), and every other position has the fill character without colors. Clearing leaves the fill character without colors everywhere and puts the cursor back to the start. A full redraw shows exactly that.",
 ["inputs","histories"],"all sizes before and after, contents, fill characters, histories of writes",
 "Sizes and histories of writes vary without bound; the suite resizes only a few screens.",
 [S],[("resizing","Screen.resize"),("clearing","Screen.clear"),("creating","Screen.__init__")])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
import re
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
    n=len(re.findall(r"[.!?](?:\s|$)",x["statement"])); 
    if n>3: print(x["id"],"sentences",n)
print(len(P))
