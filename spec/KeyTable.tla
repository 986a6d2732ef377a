------------------------------ MODULE KeyTable ------------------------------
(* Key sequences (as character codes) and the names of the keys, the first  *)
(* one being how the key prints.                                            *)
KeyTable == <<
    <<<<27>>, <<"esc", "escape">>>>,
    <<<<27, 91, 65>>, <<"up", "arrow-up">>>>,
    <<<<27, 91, 66>>, <<"down", "arrow-down">>>>,
    <<<<27, 91, 67>>, <<"right", "arrow-right">>>>,
    <<<<27, 91, 68>>, <<"left", "arrow-left">>>>,
    <<<<27, 91, 49, 59, 50, 65>>, <<"shift-up", "shift-arrow-up">>>>,
    <<<<27, 91, 49, 59, 50, 66>>, <<"shift-down", "shift-arrow-down">>>>,
    <<<<27, 91, 49, 59, 50, 67>>, <<"shift-right", "shift-arrow-right">>>>,
    <<<<27, 91, 49, 59, 50, 68>>, <<"shift-left", "shift-arrow-left">>>>,
    <<<<27, 91, 49, 59, 51, 65>>, <<"alt-up", "alt-arrow-up">>>>,
    <<<<27, 91, 49, 59, 51, 66>>, <<"alt-down", "alt-arrow-down">>>>,
    <<<<27, 91, 49, 59, 51, 67>>, <<"alt-right", "alt-arrow-right">>>>,
    <<<<27, 91, 49, 59, 51, 68>>, <<"alt-left", "alt-arrow-left">>>>,
    <<<<27, 91, 49, 59, 52, 65>>, <<"alt-shift-up", "alt-shift-arrow-up">>>>,
    <<<<27, 91, 49, 59, 52, 66>>, <<"alt-shift-down", "alt-shift-arrow-down">>>>,
    <<<<27, 91, 49, 59, 52, 67>>, <<"alt-shift-right", "alt-shift-arrow-right">>>>,
    <<<<27, 91, 49, 59, 52, 68>>, <<"alt-shift-left", "alt-shift-arrow-left">>>>,
    <<<<27, 91, 49, 59, 54, 65>>, <<"ctrl-shift-up", "ctrl-shift-arrow-up">>>>,
    <<<<27, 91, 49, 59, 54, 66>>, <<"ctrl-shift-down", "ctrl-shift-arrow-down">>>>,
    <<<<127>>, <<"backspace">>>>,
    <<<<27, 127>>, <<"alt-backspace">>>>,
    <<<<1>>, <<"ctrl-a">>>>,
    <<<<2>>, <<"ctrl-b">>>>,
    <<<<3>>, <<"ctrl-c">>>>,
    <<<<4>>, <<"ctrl-d">>>>,
    <<<<5>>, <<"ctrl-e">>>>,
    <<<<6>>, <<"ctrl-f">>>>,
    <<<<7>>, <<"ctrl-g">>>>,
    <<<<8>>, <<"ctrl-backspace", "ctrl-h">>>>,
    <<<<9>>, <<"tab", "ctrl-i">>>>,
    <<<<10>>, <<"return", "ctrl-j">>>>,
    <<<<11>>, <<"ctrl-k">>>>,
    <<<<12>>, <<"ctrl-l">>>>,
    <<<<13>>, <<"ctrl-m">>>>,
    <<<<14>>, <<"ctrl-n">>>>,
    <<<<15>>, <<"ctrl-o">>>>,
    <<<<16>>, <<"ctrl-p">>>>,
    <<<<17>>, <<"ctrl-q">>>>,
    <<<<18>>, <<"ctrl-r">>>>,
    <<<<19>>, <<"ctrl-s">>>>,
    <<<<20>>, <<"ctrl-t">>>>,
    <<<<21>>, <<"ctrl-u">>>>,
    <<<<22>>, <<"ctrl-v">>>>,
    <<<<23>>, <<"ctrl-w">>>>,
    <<<<24>>, <<"ctrl-x">>>>,
    <<<<25>>, <<"ctrl-y">>>>,
    <<<<26>>, <<"ctrl-z">>>>,
    <<<<27, 91, 49, 59, 53, 65>>, <<"ctrl-up">>>>,
    <<<<27, 91, 49, 59, 53, 66>>, <<"ctrl-down">>>>,
    <<<<27, 91, 49, 59, 53, 67>>, <<"ctrl-right">>>>,
    <<<<27, 91, 49, 59, 53, 68>>, <<"ctrl-left">>>>,
    <<<<27, 91, 72>>, <<"home">>>>,
    <<<<27, 91, 70>>, <<"end">>>>,
    <<<<27, 91, 50, 126>>, <<"insert">>>>,
    <<<<27, 91, 51, 126>>, <<"delete">>>>,
    <<<<27, 91, 90>>, <<"shift-tab">>>>,
    <<<<27, 91, 49, 49, 126>>, <<"F1">>>>,
    <<<<27, 79, 80>>, <<"F1">>>>,
    <<<<27, 91, 49, 50, 126>>, <<"F2">>>>,
    <<<<27, 79, 81>>, <<"F2">>>>,
    <<<<27, 91, 49, 51, 126>>, <<"F3">>>>,
    <<<<27, 79, 82>>, <<"F3">>>>,
    <<<<27, 91, 49, 52, 126>>, <<"F4">>>>,
    <<<<27, 79, 83>>, <<"F4">>>>,
    <<<<27, 91, 49, 53, 126>>, <<"F5">>>>,
    <<<<27, 91, 49, 55, 126>>, <<"F6">>>>,
    <<<<27, 91, 49, 56, 126>>, <<"F7">>>>,
    <<<<27, 91, 49, 57, 126>>, <<"F8">>>>,
    <<<<27, 91, 50, 48, 126>>, <<"F9">>>>,
    <<<<27, 91, 50, 49, 126>>, <<"F10">>>>,
    <<<<27, 91, 50, 51, 126>>, <<"F11">>>>,
    <<<<27, 91, 50, 52, 126>>, <<"F12">>>>
>>

(* The same for Windows, where the prefix 224 of the console is read as 27.  *)
NtTable == <<
    <<<<27>>, <<"esc">>>>,
    <<<<27, 75>>, <<"left">>>>,
    <<<<27, 77>>, <<"right">>>>,
    <<<<27, 72>>, <<"up">>>>,
    <<<<27, 80>>, <<"down">>>>,
    <<<<13>>, <<"return">>>>,
    <<<<8>>, <<"backspace">>>>,
    <<<<0, 59>>, <<"f1">>>>,
    <<<<0, 60>>, <<"f2">>>>,
    <<<<0, 61>>, <<"f3">>>>,
    <<<<0, 62>>, <<"f4">>>>,
    <<<<0, 63>>, <<"f5">>>>,
    <<<<0, 64>>, <<"f6">>>>,
    <<<<0, 65>>, <<"f7">>>>,
    <<<<0, 66>>, <<"f8">>>>,
    <<<<0, 67>>, <<"f9">>>>,
    <<<<0, 68>>, <<"f10">>>>,
    <<<<27, 133>>, <<"f11">>>>,
    <<<<27, 134>>, <<"f12">>>>
>>
=============================================================================
