SPECIFICATION GSpec
CONSTANTS N = 3 Win = 2 Mod = 65536 Disp = 100 Storage = "fails"
VIEW View
CHECK_DEADLOCK FALSE
