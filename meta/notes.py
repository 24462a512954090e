NA={}
NOTE={}
