// verification hook (included under cfg(divans_verif) only)
