EXTRA.update({})
