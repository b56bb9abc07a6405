"""Message lengths around every length class of every hash in mbo/hash."""
EDGE = [0, 1, 2, 3, 4, 5, 7, 8, 9, 12, 15, 16, 17, 24, 31, 32, 33, 39, 40, 47, 48, 49, 63, 64, 65, 79, 80, 81, 96, 97, 111, 112, 113, 127, 128, 129, 143, 144, 145, 160, 161, 224, 225, 239, 240, 241, 255, 256, 257, 336, 337, 449, 511, 512, 513, 1023, 1024, 1025, 1088, 1089, 2047, 2048, 2049, 3000]
REST = [n for n in range(0, 420) if n not in EDGE] + [1152, 1153, 4095, 4096, 4097, 8193]
