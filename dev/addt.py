import json,sys
j=json.load(open('/verif/techniques.json'))
j[sys.argv[1]]={"technique":sys.argv[2]}
json.dump(j,open('/verif/techniques.json','w'),indent=1)
