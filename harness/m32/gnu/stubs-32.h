/* empty: 32-bit stub list */
