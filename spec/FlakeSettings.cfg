CONSTANTS Machines = {0, 1, 255, 256, 257, 4660, 32767, 32768, 65280, 65535}
SPECIFICATION Spec
INVARIANT Sound
CHECK_DEADLOCK FALSE
