`(k/defentity ~entity-var
   ~@body)

