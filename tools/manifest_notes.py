TECHNIQUE={}
NOTE={}
NA={}
