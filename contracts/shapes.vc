# loop contracts of iterator chains that count, sum or join, wherever they occur

@shape chars.filter.count
@inv
[] $acc == nl($it.done())

@shape iter.map.collectString
@inv
[] $acc@ == r_list($it.done())
