------------------------------ MODULE KeyNames ------------------------------
(***************************************************************************)
(* Names of keys and their codes. The codes of device keys are those of    *)
(* the Linux input subsystem.                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

NameTable == <<
  <<"Escape", 1>>, <<"1", 2>>, <<"2", 3>>, <<"3", 4>>, <<"4", 5>>,
  <<"5", 6>>, <<"6", 7>>, <<"7", 8>>, <<"8", 9>>, <<"9", 10>>, <<"0", 11>>,
  <<"Minus", 12>>, <<"Equal", 13>>, <<"Backspace", 14>>, <<"Tab", 15>>,
  <<"Q", 16>>, <<"W", 17>>, <<"E", 18>>, <<"R", 19>>, <<"T", 20>>,
  <<"Y", 21>>, <<"U", 22>>, <<"I", 23>>, <<"O", 24>>, <<"P", 25>>,
  <<"BracketLeft", 26>>, <<"BracketRight", 27>>, <<"Enter", 28>>,
  <<"ControlLeft", 29>>, <<"A", 30>>, <<"S", 31>>, <<"D", 32>>, <<"F", 33>>,
  <<"G", 34>>, <<"H", 35>>, <<"J", 36>>, <<"K", 37>>, <<"L", 38>>,
  <<"Semicolon", 39>>, <<"Quote", 40>>, <<"Backquote", 41>>,
  <<"ShiftLeft", 42>>, <<"Backslash", 43>>, <<"Z", 44>>, <<"X", 45>>,
  <<"C", 46>>, <<"V", 47>>, <<"B", 48>>, <<"N", 49>>, <<"M", 50>>,
  <<"Comma", 51>>, <<"Period", 52>>, <<"Slash", 53>>, <<"ShiftRight", 54>>,
  <<"NumpadMultiply", 55>>, <<"AltLeft", 56>>, <<"Space", 57>>,
  <<"CapsLock", 58>>, <<"F1", 59>>, <<"F2", 60>>, <<"F3", 61>>, <<"F4", 62>>,
  <<"F5", 63>>, <<"F6", 64>>, <<"F7", 65>>, <<"F8", 66>>, <<"F9", 67>>,
  <<"F10", 68>>, <<"NumLock", 69>>, <<"ScrollLock", 70>>, <<"Numpad7", 71>>,
  <<"Numpad8", 72>>, <<"Numpad9", 73>>, <<"NumpadSubtract", 74>>,
  <<"Numpad4", 75>>, <<"Numpad5", 76>>, <<"Numpad6", 77>>,
  <<"NumpadAdd", 78>>, <<"Numpad1", 79>>, <<"Numpad2", 80>>,
  <<"Numpad3", 81>>, <<"Numpad0", 82>>, <<"NumpadDecimal", 83>>,
  <<"IntlBackslash", 86>>, <<"F11", 87>>, <<"F12", 88>>, <<"IntlRo", 89>>,
  <<"Convert", 92>>, <<"KanaMode", 93>>, <<"NonConvert", 94>>,
  <<"NumpadEnter", 96>>, <<"ControlRight", 97>>, <<"NumpadDivide", 98>>,
  <<"PrintScreen", 99>>, <<"AltRight", 100>>, <<"Cancel", 101>>,
  <<"Home", 102>>, <<"ArrowUp", 103>>, <<"PageUp", 104>>,
  <<"ArrowLeft", 105>>, <<"ArrowRight", 106>>, <<"End", 107>>,
  <<"ArrowDown", 108>>, <<"PageDown", 109>>, <<"Insert", 110>>,
  <<"Delete", 111>>, <<"AudioVolumeMute", 113>>, <<"AudioVolumeDown", 114>>,
  <<"AudioVolumeUp", 115>>, <<"Power", 116>>, <<"NumpadEqual", 117>>,
  <<"Settings", 118>>, <<"Pause", 119>>, <<"NumpadComma", 121>>,
  <<"Lang1", 122>>, <<"Lang2", 123>>, <<"IntlYen", 124>>,
  <<"MetaLeft", 125>>, <<"MetaRight", 126>>, <<"ContextMenu", 127>>,
  <<"BrowserStop", 128>>, <<"Again", 129>>, <<"Props", 130>>,
  <<"Undo", 131>>, <<"Select", 132>>, <<"Copy", 133>>, <<"Open", 134>>,
  <<"Paste", 135>>, <<"Find", 136>>, <<"Cut", 137>>, <<"Help", 138>>,
  <<"LaunchApp2", 140>>, <<"Sleep", 142>>, <<"WakeUp", 143>>,
  <<"LaunchApp1", 144>>, <<"LaunchMail", 155>>, <<"BrowserFavorites", 156>>,
  <<"BrowserBack", 158>>, <<"BrowserForward", 159>>, <<"Eject", 161>>,
  <<"MediaTrackNext", 163>>, <<"MediaPlayPause", 164>>,
  <<"MediaTrackPrevious", 165>>, <<"MediaStop", 166>>,
  <<"MediaRewind", 168>>, <<"LaunchMediaPlayer", 171>>,
  <<"BrowserHome", 172>>, <<"BrowserRefresh", 173>>, <<"F13", 183>>,
  <<"F14", 184>>, <<"F15", 185>>, <<"F16", 186>>, <<"F17", 187>>,
  <<"F18", 188>>, <<"F19", 189>>, <<"F20", 190>>, <<"F21", 191>>,
  <<"F22", 192>>, <<"F23", 193>>, <<"F24", 194>>, <<"MediaPlay", 200>>,
  <<"MediaPause", 201>>, <<"Prog3", 202>>, <<"MediaFastForward", 208>>,
  <<"BrowserSearch", 217>>, <<"BrightnessDown", 224>>,
  <<"BrightnessUp", 225>>, <<"DisplayToggleIntExt", 227>>, <<"WLAN", 238>>,
  <<"ButtonLeft", 272>>, <<"ButtonRight", 273>>, <<"ButtonMiddle", 274>>,
  <<"ButtonBack", 275>>, <<"ButtonForward", 276>>, <<"WheelUp", 336>>,
  <<"WheelDown", 337>>, <<"WheelLeft", 338>>, <<"WheelRight", 339>>,
  <<"Fn", 464>>, <<"Any", 61440>>, <<"ContextActive", 61442>>,
  <<"Shift", 62208>>, <<"Control", 62209>>, <<"Alt", 62210>>,
  <<"Meta", 62211>>, <<"OSLeft", 125>>, <<"OSRight", 126>>,
  <<"KeyA", 30>>, <<"KeyB", 48>>, <<"KeyC", 46>>, <<"KeyD", 32>>,
  <<"KeyE", 18>>, <<"KeyF", 33>>, <<"KeyG", 34>>, <<"KeyH", 35>>,
  <<"KeyI", 23>>, <<"KeyJ", 36>>, <<"KeyK", 37>>, <<"KeyL", 38>>,
  <<"KeyM", 50>>, <<"KeyN", 49>>, <<"KeyO", 24>>, <<"KeyP", 25>>,
  <<"KeyQ", 16>>, <<"KeyR", 19>>, <<"KeyS", 31>>, <<"KeyT", 20>>,
  <<"KeyU", 22>>, <<"KeyV", 47>>, <<"KeyW", 17>>, <<"KeyX", 45>>,
  <<"KeyY", 21>>, <<"KeyZ", 44>>, <<"Digit0", 11>>, <<"Digit1", 2>>,
  <<"Digit2", 3>>, <<"Digit3", 4>>, <<"Digit4", 5>>, <<"Digit5", 6>>,
  <<"Digit6", 7>>, <<"Digit7", 8>>, <<"Digit8", 9>>, <<"Digit9", 10>>
>>

IsKeyName(n) == SelectInSeq(NameTable, LAMBDA e : e[1] = n) # 0
KeyByName(n) == NameTable[SelectInSeq(NameTable, LAMBDA e : e[1] = n)][2]

\* virtual keys are numbered
VirtualKey(i) == 61696 + i

\* the names are unique
ASSUME \A i, j \in 1..Len(NameTable) : NameTable[i][1] = NameTable[j][1] => i = j
=============================================================================
