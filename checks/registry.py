import engine, index, codec, conc, structs, text, measures, uni, files, whole, command, tools, general
CHECKS = {p: engine.run for p in ("P01", "P02", "P03", "P04", "P05", "P06")}
CHECKS.update({p: index.run for p in index.PROPS})
CHECKS["P11"] = codec.run
CHECKS.update({p: conc.run for p in conc.FAMILY})
CHECKS.update({p: structs.run for p in structs.FAMILY})
CHECKS.update({p: text.run for p in text.FAMILY})
CHECKS["P22"] = measures.run
CHECKS["P36"] = measures.stats
CHECKS["P34"] = uni.run
CHECKS.update({p: files.run for p in files.FAMILY})
CHECKS.update({p: whole.run for p in whole.FAMILY})
CHECKS.update({p: command.run for p in command.FAMILY})
CHECKS["P37"] = tools.run
CHECKS["P31"] = general.run
CHECKS["P38"] = general.arithmetic
