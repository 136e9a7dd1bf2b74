/* the 32-bit variant of this generated header is not installed; nothing in it is needed */
